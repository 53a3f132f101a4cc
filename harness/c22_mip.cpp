// C22, see c22_tools.h: f3dmakemip
#include "c22_tools.h"
#include "Field3D/MinMaxUtil.h"

template <class T> struct Expect
{
  std::vector<Layer> &out; bool &lost; int minRes; size_t th; bool mm; float res;
  template <class MIP> void one(const Layer &l, const typename MIP::NestedType &base, const V3i &off, int cls)
  {
    typename MIP::Ptr m = makeMIP<MIP, TriangleFilter>(base, minRes, off, th);
    if (m) { add(l, m, "", cls); } else { lost = true; }
    if (!mm) { return; }
    auto p = makeMinMax<MIP>(base, res, th);
    if (p.first && p.second) { add(l, p.first, k_minSuffix, cls); add(l, p.second, k_maxSuffix, cls); } else { lost = true; }
  }
  void add(const Layer &l, FieldRes::Ptr f, const std::string &suf, int cls) { Layer r = l; f->copyMetadata(*l.f.f); r.name += suf; r.f.f = f; r.f.cls = cls; out.push_back(r); }
  void go(const Layer &l)
  {
    V3i off = computeOffset(*l.f.f);
    if (auto p = field_dynamic_cast<DenseField<T> >(l.f.f)) { one<MIPDenseField<T> >(l, *p, off, kMIPDense); }
    if (auto p = field_dynamic_cast<SparseField<T> >(l.f.f)) { one<MIPSparseField<T> >(l, *p, off, kMIPSparse); }
    if (auto p = field_dynamic_cast<MIPDenseField<T> >(l.f.f)) { one<MIPDenseField<T> >(l, *p->concreteMipLevel(0), off, kMIPDense); }
    if (auto p = field_dynamic_cast<MIPSparseField<T> >(l.f.f)) { one<MIPSparseField<T> >(l, *p->concreteMipLevel(0), off, kMIPSparse); }
  }
};
PBT_TEST(makemip, 40, 1500, "such files (no staggered fields) turned into MIP files of either encoding with any smallest resolution, with min/max pyramids of any resolution or without, selected by patterns; fields with windows a pyramid cannot be made of; the output has what makeMIP() and makeMinMax() give; non-trivial = a pyramid of more than one level")
{
  IOReset rst; GenOpt o; o.maxRes = 10; o.maxOrder = 3; o.classes = 0x1f & ~(1u << kMAC);
  Inputs in = genInputs(s, c, o, 2, false, true); Cleanup cl; cl.f = in.files;
  // fields from voxel zero on, mostly
  std::string out = c.scratch + "/mip.f3d"; cl.f.push_back(out); unlink(out.c_str());
  bool og = s.chance(60), mm = s.flip(); int minRes = 4; float mult = 0.5f; size_t th = 8;
  SV np = genPats(s, true), lp = genPats(s, false), args = fileArgs(s, in.files);
  for (auto &x : np) { args.push_back("--name=" + x); } for (auto &x : lp) { args.push_back("--attribute=" + x); }
  if (!og || s.flip()) { args.push_back(og ? "--ogawa=1" : "--ogawa=0"); }
  if (s.chance(70)) { minRes = (int)s.range(1, 6); args.push_back("-m"); args.push_back(std::to_string(minRes)); }
  if (mm || s.flip()) { args.push_back(mm ? "--min-max=1" : "--min-max=0"); }
  if (s.flip()) { mult = s.pick(std::vector<float>{0.25f, 0.5f, 0.75f, 1.0f}); std::ostringstream q; q << mult; args.push_back("-r"); args.push_back(q.str()); }
  if (s.chance(80)) { th = s.range(1, 4); args.push_back("--num-threads"); args.push_back(std::to_string(th)); }
  int bad = (int)s.weighted({88, 12});
  args.push_back("-o"); args.push_back(bad ? c.scratch + "/nodir/x.f3d" : out);
  c << "f3dmakemip " << join(args);
  Run r = runTool("TOOL_F3DMAKEMIP", args, c.scratch);
  PBT_CHECK(r.rc >= 0, "tool-crash", "f3dmakemip ended by " << r.rc << ": " << tail(r.out));
  if (bad) { PBT_CHECK(r.rc != 0, "tool-status", "f3dmakemip succeeds without being able to create its output"); return; }
  std::vector<Layer> want; bool lost = false;
  for (auto &l : in.layers) {
    if (!match(l.part, np) || !match(l.name, lp)) { continue; }
    // the results of earlier runs are left out
    if (l.f.type < 3 && (l.name.find(k_minSuffix) != std::string::npos || l.name.find(k_maxSuffix) != std::string::npos)) { continue; }
    if (l.f.type >= 3 && (l.name.find(k_minSuffix) != std::string::npos || l.name.find(k_maxSuffix) != std::string::npos)) { continue; }
    withAny(l.f.type, [&](auto t) { typedef decltype(t) T; Expect<T> e = {want, lost, minRes, th, mm, mult}; e.go(l); });
  }
  PBT_CHECK((r.rc != 0) == lost, "tool-status", "f3dmakemip exits with " << r.rc << (lost ? " although a layer could not be made into a pyramid" : "") << ": " << tail(r.out));
  Field3DInputFile f; PBT_CHECK(f.open(out), "tool-output", "the output cannot be opened");
  PBT_CHECK(f.encoding() == (og ? "Ogawa" : "HDF5"), "tool-output", "the output is " << f.encoding());
  std::set<std::string> gs, gv, e; listed(f, gs, gv); gs.insert(gv.begin(), gv.end());
  for (auto &l : want) { e.insert(l.part + "/" + l.name); }
  PBT_CHECK(e == gs, "tool-layers", "the output has layers " << setStr(gs) << ", expected " << setStr(e));
  for (auto &l : want) {
    FieldRes::Ptr got = readOnly(f, l.part, l.name, l.f.type); std::string what = "pyramid " + l.part + ":" + l.name;
    cmpField(l.f, got, what);
    PBT_CHECK(got->name == l.part && got->attribute == l.name, "tool-name", what << " is called " << got->name << ":" << got->attribute);
    PBT_CHECK(got->mapping()->isIdentical(l.f.f->mapping()), "tool-mapping", what << " has another mapping");
    // the offset of the pyramid is compared with its voxels
    V3i none(1, 2, 3456); got->metadata().setVecIntMetadata("mipoffset", none); l.f.f->metadata().setVecIntMetadata("mipoffset", none);
    PBT_CHECK(sameMeta(got->metadata(), l.f.f->metadata()), "tool-meta", what << " has other metadata");
    withAny(l.f.type, [&](auto t) { typedef decltype(t) T; if (auto p = field_dynamic_cast<MIPBase<T> >(got)) { if (p->numLevels() > 1) { c.nontrivial = true; } } });
  }
}
