// C22, see c22_tools.h: f3dmerge, f3dsample, f3dinfo
#include "c22_tools.h"
#include <regex>

PBT_TEST(merge, 60, 3000, "one to three files of either encoding with up to four layers each (all classes and types, null, matrix and frustum mappings, metadata, partitions of one name in several files and with several mappings), merged into either encoding with any name and attribute patterns and thread count; missing inputs and outputs that cannot be created; non-trivial = more than one layer selected")
{
  IOReset rst; GenOpt o; o.maxRes = 8; o.maxOrder = 3;
  Inputs in = genInputs(s, c, o, 3, true); Cleanup cl; cl.f = in.files;
  std::string out = c.scratch + "/merged.f3d"; cl.f.push_back(out); unlink(out.c_str());
  bool og = s.chance(60); SV np = genPats(s, true), lp = genPats(s, false), args = fileArgs(s, in.files);
  for (auto &x : np) { args.push_back("--name=" + x); } for (auto &x : lp) { args.push_back("--attribute=" + x); }
  if (!og || s.flip()) { args.push_back(og ? "--ogawa=1" : "--ogawa=0"); }
  if (s.flip()) { args.push_back("-t"); args.push_back(std::to_string(s.below(5))); }
  int bad = (int)s.weighted({85, 7, 8});
  if (bad == 1) { args.push_back(args[0] == "-i" ? "-i" : ""); if (args.back().empty()) { args.pop_back(); } args.push_back(args[0].compare(0, 8, "--input-") ? c.scratch + "/missing.f3d" : "--input-file=" + c.scratch + "/missing.f3d"); }
  args.push_back("-o"); args.push_back(bad == 2 ? c.scratch + "/nodir/x.f3d" : out);
  c << "f3dmerge " << join(args);
  Run r = runTool("TOOL_F3DMERGE", args, c.scratch);
  PBT_CHECK(r.rc >= 0, "tool-crash", "f3dmerge ended by " << r.rc << ": " << tail(r.out));
  if (bad) { PBT_CHECK(r.rc != 0, "tool-status", "f3dmerge succeeds " << (bad == 1 ? "without one of its inputs" : "without being able to create its output")); return; }
  std::set<std::string> es, ev; bool lost = false; std::vector<const Layer *> want;
  for (auto &l : in.layers) {
    if (!match(l.part, np) || !match(l.name, lp)) { continue; }
    if (og && l.f.cls == kMAC) { lost = true; continue; }   // Ogawa files cannot hold these
    (l.f.type < 3 ? es : ev).insert(l.part + "/" + l.name); want.push_back(&l);
  }
  c.nontrivial = want.size() > 1;
  PBT_CHECK((r.rc != 0) == lost, "tool-status", "f3dmerge exits with " << r.rc << (lost ? " although a layer could not be written" : "") << ": " << tail(r.out));
  Field3DInputFile f; PBT_CHECK(f.open(out), "tool-output", "the output cannot be opened");
  PBT_CHECK(f.encoding() == (og ? "Ogawa" : "HDF5"), "tool-output", "the output is " << f.encoding());
  std::set<std::string> gs, gv; listed(f, gs, gv);
  std::set<std::string> e = es, g = gs; e.insert(ev.begin(), ev.end()); g.insert(gv.begin(), gv.end());
  if (!lost) { PBT_CHECK(e == g, "tool-layers", "the output has layers " << setStr(g) << ", expected " << setStr(e)); }
  for (auto &x : es) { PBT_CHECK(gs.count(x), "tool-layers", "scalar layer " << x << " is not listed among " << setStr(gs)); }
  for (auto &x : ev) { PBT_CHECK(gv.count(x), "tool-layers", "vector layer " << x << " is not listed among " << setStr(gv)); }
  for (auto l : want) {
    FieldRes::Ptr got = readOnly(f, l->part, l->name, l->f.type); std::string what = "merged " + l->part + ":" + l->name;
    cmpField(l->f, got, what);
    PBT_CHECK(got->name == l->part && got->attribute == l->name, "tool-name", what << " is called " << got->name << ":" << got->attribute);
    PBT_CHECK(got->mapping()->isIdentical(l->f.f->mapping()), "tool-mapping", what << " has another mapping");
    PBT_CHECK(sameMeta(got->metadata(), l->f.f->metadata()), "tool-meta", what << " has other metadata");
  }
}

PBT_TEST(sample, 40, 1500, "f3dsample with any combination of options: every type, bit depth, resolution down to one voxel, names; outputs that cannot be created; non-trivial = more than one voxel")
{
  IOReset rst; Cleanup cl; std::string out = c.scratch + "/sample.f3d"; cl.f.push_back(out); unlink(out.c_str());
  SV args; std::string name = "field_name", attr = "field_attribute"; V3i res; int bits = 32; bool vec = s.flip();
  std::string type = s.pick(std::vector<std::string>{"DenseField", "SparseField"}); bool giveType = s.chance(80); if (!giveType) { type = "DenseField"; }
  bool bad = s.chance(8), pos = s.flip();
  if (pos) { args.push_back(bad ? c.scratch + "/nodir/x.f3d" : out); } else { args.push_back("--output-file"); args.push_back(bad ? c.scratch + "/nodir/x.f3d" : out); }
  bool mac = vec && s.chance(20); if (mac) { type = "MACField"; giveType = true; }
  if (giveType) { args.push_back("-t"); args.push_back(type); }
  if (s.flip()) { name = "n" + std::to_string(s.below(9)); args.push_back("--name=" + name); }
  if (s.flip()) { attr = "a b"; args.push_back("-a"); args.push_back(attr); }
  for (int a = 0; a < 3; ++a) { res[a] = (int)s.range(1, 12); args.push_back(std::string("-") + "xyz"[a]); args.push_back(std::to_string(res[a])); }
  if (s.chance(80)) { bits = s.pick(std::vector<int>{16, 32, 64}); args.push_back("-b"); args.push_back(std::to_string(bits)); }
  if (vec) { args.push_back(s.flip() ? "-v" : "--vector"); }
  c << "f3dsample " << join(args); c.nontrivial = res.x * res.y * res.z > 1;
  Run r = runTool("TOOL_F3DSAMPLE", args, c.scratch);
  PBT_CHECK(r.rc >= 0, "tool-crash", "f3dsample ended by " << r.rc << ": " << tail(r.out));
  if (bad || mac) { PBT_CHECK(r.rc != 0, "tool-status", "f3dsample succeeds although " << (bad ? "the output cannot be created" : "the file cannot hold the field")); return; }
  PBT_CHECK(r.rc == 0, "tool-status", "f3dsample exits with " << r.rc << ": " << tail(r.out));
  Field3DInputFile f; PBT_CHECK(f.open(out), "tool-output", "the output cannot be opened");
  std::set<std::string> gs, gv; listed(f, gs, gv);
  std::set<std::string> want; want.insert(name + "/" + attr);
  PBT_CHECK((vec ? gv : gs) == want, "tool-layers", "the output has scalar layers " << setStr(gs) << "and vector layers " << setStr(gv));
  int t = 0; for (int q = 0; q < 6; ++q) { if (std::string(typeName(q)) == (vec ? bits == 16 ? "V3h" : bits == 32 ? "V3f" : "V3d" : bits == 16 ? "half" : bits == 32 ? "float" : "double")) { t = q; } }
  FieldRes::Ptr g = readOnly(f, name, attr, t);
  PBT_CHECK(g->className() == type, "tool-class", "the output has a " << g->className());
  PBT_CHECK(g->extents() == zbox(res) && g->dataWindow() == zbox(res), "tool-size", "the field is " << bs(g->extents()));
  M44d m; m.setScale(V3d(res)); m *= M44d().setTranslation(V3d(1, 2, 3));
  MatrixFieldMapping::Ptr mp(new MatrixFieldMapping); mp->setLocalToWorld(m); mp->setExtents(zbox(res));
  PBT_CHECK(g->mapping()->isIdentical(mp), "tool-mapping", "the field has another mapping");
  PBT_CHECK(g->metadata().floatMetadata("float_metadata", 0) == 1 && g->metadata().intMetadata("int_metadata", 0) == 1 && g->metadata().strMetadata("str_metadata", "") == "string" && g->metadata().vecFloatMetadata("vec_float_metadata", V3f(0)) == V3f(1) && g->metadata().vecIntMetadata("vec_int_metadata", V3i(0)) == V3i(1), "tool-meta", "the field has other metadata");
  PBT_CHECK(f.metadata().floatMetadata("float_global_metadata", 0) == 1 && f.metadata().intMetadata("int_global_metadata", 0) == 1 && f.metadata().strMetadata("str_global_metadata", "") == "string" && f.metadata().vecFloatMetadata("vec_float_global_metadata", V3f(0)) == V3f(1) && f.metadata().vecIntMetadata("vec_int_global_metadata", V3i(0)) == V3i(1), "tool-meta", "the file has other metadata");
  withAny(t, [&](auto z) { typedef decltype(z) T; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(g); forVox(zbox(res), [&](int i, int j, int k) { PBT_CHECK(p->value(i, j, k) == mkConst<T>(0), "tool-voxel", "voxel (" << i << "," << j << "," << k << ") is " << vs(p->value(i, j, k))); }); });
}

static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" "); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
template <class M> static void metaLines(std::multiset<std::string> &r, const std::string &h, const M &m)
{ r.insert(h); for (auto &x : m) { std::ostringstream o; o << x.first << " : " << x.second; r.insert(h + "|" + trim(o.str())); } if (m.empty()) { r.insert(h + "|None"); } }
static void allMeta(std::multiset<std::string> &r, const FieldMetadata &m)
{ metaLines(r, "Int metadata:", m.intMetadata()); metaLines(r, "Float metadata:", m.floatMetadata()); metaLines(r, "V3i metadata:", m.vecIntMetadata()); metaLines(r, "V3f metadata:", m.vecFloatMetadata()); metaLines(r, "String metadata:", m.strMetadata()); }

PBT_TEST(info, 40, 1500, "f3dinfo on such files with any regular expressions for names and attributes; the fields, sizes, mappings and metadata printed are those of the files; missing files; non-trivial = more than one field")
{
  IOReset rst; GenOpt o; o.maxRes = 6; o.maxOrder = 3;
  Inputs in = genInputs(s, c, o, 2, true); Cleanup cl; cl.f = in.files;
  static const char *np[] = {"a", "b", "a.*", "c\\.x", ".", "zz", "(a|b)"}, *lp[] = {"d", "v", "d.*", ".*s", ".", "zz", "[dv]"};
  SV args = in.files, ns, ls; if (s.chance(40)) { ns.push_back(np[s.below(7)]); if (s.flip()) { ns.push_back(np[s.below(7)]); } } if (s.chance(40)) { ls.push_back(lp[s.below(7)]); }
  bool bad = s.chance(8); if (bad) { args.push_back(c.scratch + "/missing.f3d"); }
  for (auto &x : ns) { args.push_back("--name=" + x); } for (auto &x : ls) { args.push_back("--attribute=" + x); }
  c << "f3dinfo " << join(args);
  Run r = runTool("TOOL_F3DINFO", args, c.scratch);
  PBT_CHECK(r.rc >= 0, "tool-crash", "f3dinfo ended by " << r.rc << ": " << tail(r.out));
  if (bad) { PBT_CHECK(r.rc != 0, "tool-status", "f3dinfo succeeds without one of its files"); return; }
  PBT_CHECK(r.rc == 0, "tool-status", "f3dinfo exits with " << r.rc << ": " << tail(r.out));
  auto hit = [](const std::string &t, const SV &p) { if (p.empty()) { return true; } for (auto &x : p) { if (std::regex_match(t, std::regex(x))) { return true; } } return false; };
  std::multiset<std::multiset<std::string> > want, got;
  for (auto &l : in.layers) {
    if (!hit(l.part, ns) || !hit(l.name, ls)) { continue; }
    std::multiset<std::string> b; std::ostringstream e, d; Box3i x = l.f.f->extents(), y = l.f.f->dataWindow(); e << "Extents:     " << x.min << " " << x.max; d << "Data window: " << y.min << " " << y.max;
    b.insert("Name:        " + l.part); b.insert("Attribute:   " + l.name); b.insert("Field type:  " + l.f.f->className()); b.insert("Data type:   " + std::string(typeName(l.f.type))); b.insert(e.str()); b.insert(d.str());
    b.insert("Mapping:"); b.insert("Type: " + l.f.f->mapping()->className());
    MatrixFieldMapping::Ptr mm = FIELD_DYNAMIC_CAST<MatrixFieldMapping>(l.f.f->mapping());
    if (mm) { b.insert("Local to world transform:"); M44d m = mm->localToWorld(); for (int j = 0; j < 4; ++j) { std::ostringstream q; for (int i = 0; i < 4; ++i) { q << m[i][j] << " "; } b.insert(trim(q.str())); } }
    allMeta(b, l.f.f->metadata()); want.insert(b);
  }
  c.nontrivial = want.size() > 1;
  std::istringstream is(r.out); std::string line; std::multiset<std::string> cur, glob; bool inField = false, inGlobal = false; std::string head; int files = 0, encs = 0; std::multiset<std::string> globWant;
  auto flush = [&]() { if (inField) { got.insert(cur); } cur.clear(); inField = false; };
  while (std::getline(is, line)) {
    std::string t = trim(line);
    if (line.compare(0, 13, "Field3D file:") == 0) { flush(); inGlobal = false; ++files; continue; }
    if (t == "Field:") { flush(); inGlobal = false; inField = true; continue; }
    if (t == "Global metadata") { flush(); inGlobal = true; continue; }
    if (t == "Ogawa" || t == "HDF5") { ++encs; continue; }
    if (!inField && !inGlobal) { continue; }
    std::multiset<std::string> &to = inField ? cur : glob;
    if (t.size() > 9 && t.substr(t.size() - 9) == "metadata:") { head = t; to.insert(t); continue; }
    bool item = line.compare(0, 6, "      ") == 0 && (inGlobal || to.count("String metadata:") || to.count("Int metadata:"));
    to.insert(item ? head + "|" + t : t);
  }
  flush();
  for (auto &m : in.meta) { DenseFieldf df; FieldMetadata &f = df.metadata(); for (auto &x : m) { f.setStrMetadata(x.first, x.second); } allMeta(globWant, f); }
  PBT_CHECK(files == (int)in.files.size() && encs == files, "info-files", files << " files and " << encs << " encodings are listed");
  for (auto &b : got) { if (!want.count(b)) { std::string m; for (auto &x : b) { m += x + "\n"; } PBT_FAIL("info-field", "f3dinfo describes a field that is not so:\n" << m); } }
  PBT_CHECK(got == want, "info-field", got.size() << " fields are described, expected " << want.size());
  PBT_CHECK(glob == globWant, "info-global", "the metadata of the files are printed wrong: " << tail(r.out));
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;
