// C24, see c24_group.h
#include "c24_group.h"
PBT_TEST(ranges, 200, 10000, "such groups of scalar fields, min/max representations made at any step and any resolution or not at all; boxes around points of the fields, single points and the infinite box; every voxel whose centre is in the box is within the range, which is no wider than the fields; non-trivial = more than one field") { rangeCase<1>(s, c); }
PBT_TEST(loading, 60, 2500, "files of either encoding with up to four partitions, each with layers of the group's kind and others, some with their min and max pyramids and some without; loaded into an empty group or one that has fields, sampled and asked for ranges; missing files and attributes; non-trivial = more than one field loaded")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  std::string fn = c.scratch + "/g.f3d";
  ScalarFieldGroup grp; Model<1> md; bool remap = false, os = false; M44d osm;
  PBT_CHECK(grp.load(c.scratch + "/none.f3d", "d") < 0 && grp.size() == 0, "load-missing", "loading a missing file gives no error");
  if (s.flip()) { add<1>(s, grp, md, 1, true, remap, os, osm); if (s.flip()) { grp.makeMinMax(1.0f); } }
  size_t before = md.m.size(), allBefore = md.all.size(); int n = (int)s.range(1, 4), loaded = 0;
  {
    Field3DOutputFile out; PBT_CHECK(out.create(fn), "load-write", "create() failed");
    for (int q = 0; q < n; ++q) {
      Member m; typedef float T;
      if (s.flip()) { if (s.flip()) { plainMember<DenseField<T> >(s, true, m); } else { plainMember<SparseField<T> >(s, true, m); } }
      else if (s.flip()) { mipMember<DenseField<T>, MIPDenseField<T> >(s, m); } else { mipMember<SparseField<T>, MIPSparseField<T> >(s, m); }
      std::string part = "p" + std::to_string(q); std::string attr = s.chance(80) ? "d" : "other";
      Field<T>::Ptr f = field_dynamic_cast<Field<T> >(m.f);
      PBT_CHECK(out.writeScalarLayer<T>(part, attr, f), "load-write", "layer not written");
      bool mm = s.flip();
      if (mm) {
        Grid<T> g; g.reset(m.f->dataWindow(), 0.0f); DenseField<T> d; d.setSize(m.f->dataWindow()); forVox(d.dataWindow(), [&](int i, int j, int k) { d.lvalue(i, j, k) = (float)m.voxel(i, j, k).x; }); d.setMapping(m.f->mapping());
        auto pr = makeMinMax<MIPDenseField<T> >(d, (float)s.real(0.3, 1), 1);
        PBT_CHECK(pr.first && pr.second, "load-write", "no min/max pyramids");
        PBT_CHECK(out.writeScalarLayer<T>(part, attr + "_min", pr.first) && out.writeScalarLayer<T>(part, attr + "_max", pr.second), "load-write", "min/max not written");
      }
      if (s.chance(30)) { V3f z(1); DenseField<V3f>::Ptr v(new DenseField<V3f>); v->setSize(V3i(2)); v->clear(z); v->setMapping(m.f->mapping()); out.writeVectorLayer<float>(part, attr, v); }
      if (attr == "d") { m.hasOs = os; m.os = osm; m.remap = remap; if (os) { m.scale = pow(fabs(osm.determinant()), 1 / 3.0); } md.m.push_back(m); ++loaded; }
      c << m.f->className() << (mm ? "+minmax" : "") << " '" << attr << "'; ";
    }
    out.close();
  }
  int got = grp.load(fn, "d");
  PBT_CHECK(got == loaded, "load-count", "load() returns " << got << ", " << loaded << " fields are in the file");
  PBT_CHECK(grp.size() == before + loaded, "load-count", "the group has " << grp.size() << " fields, not " << before + loaded);
  c.nontrivial = loaded > 1; c.label(grp.hasPrefiltMinMax() ? "prefiltered" : "direct");
  PBT_CHECK(grp.fields().size() == allBefore + loaded, "group-fields", "fields() holds " << grp.fields().size());
  md.all = grp.fields();
  // memSize() of the fields read may differ from that of the fields written
  size_t mem = grp.memSize(); PBT_CHECK(loaded == 0 || mem > 0, "group-memsize", "memSize() is 0");
  for (int q = 0; q < 6; ++q) {
    V3d p = genPoint(s, md); if (!md.usable(p)) { continue; }
    double e = 0, tol = 1e-3; float spot = 0.5f; for (auto &m : md.m) { V3d v = m.toVs(p); if (m.where(v) != 1) { continue; } double x = m.sample(v, (float)(spot / m.scale)).x; if (m.remap) { x = 2 * x + 3; } e += x; tol += 2e-3 * (std::max(m.lo.length(), m.hi.length()) + 3); }
    float r[3] = {0, 0, 0}; grp.sample(p, spot, 0, r);
    PBT_CHECK(fabs(r[0] - e) <= tol, "load-sample", "a loaded group samples " << r[0] << " at " << vs(p) << ", its fields " << e);
  }
  checkRange<1>(s, grp, md, !grp.hasPrefiltMinMax());
  unlink(fn.c_str());   // MIP levels are read when they are needed
}
