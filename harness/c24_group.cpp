// C24, see c24_group.h
#include "c24_group.h"
PBT_TEST(scalars, 150, 8000, "groups of up to nine dense, sparse and MIP fields of half, float and double with null, matrix and frustum mappings, overlapping or apart, added in several steps under changing object transforms (mirrored ones included), value remapping and bounds optimization, with fields of other types among them; sums, averages, counts, bounds and the calls for many points against the fields themselves; non-trivial = a point inside more than one field") { sampleCase<1>(s, c); }
PBT_TEST(rays, 400, 20000, "such groups and rays through them, from inside, outside and behind, along axes and faces, directions of any length; the points of the ray inside the intervals are those inside the fields; non-trivial = the ray meets a field")
{
  ScalarFieldGroup grp; Model<1> md; bool remap = false, os = false; M44d osm;
  int n = (int)s.range(1, 3);
  for (int q = 0; q < n; ++q) { add<1>(s, grp, md, 1, true, remap, os, osm); }
  for (int q = 0; q < 6; ++q) {
    V3d a = genPoint(s, md), b = genPoint(s, md), d = b - a;
    int kind = (int)s.weighted({6, 3, 2});
    if (kind == 1) { d = V3d(0); d[s.below(3)] = s.flip() ? 1 : -1; }
    if (kind == 2 && md.m.size()) {   // parallel to an edge of a field
      const Member &m = md.m[s.below(md.m.size())]; V3d v = m.toVs(a), u = v; u[s.below(3)] += 1; d = m.toWs(u) - m.toWs(v);
    }
    double len = pow(2.0, s.real(-3, 3)); if (!(d.length() > 1e-3)) { continue; } d = d.normalized() * len;
    a -= d * s.real(-3, 8);
    Ray3d ray; ray.pos = a; ray.dir = d;
    IntervalVec iv; bool any = grp.getIntersections(ray, iv);
    PBT_CHECK(any == !iv.empty(), "rays-result", "getIntersections() returns " << any << " with " << iv.size() << " intervals");
    PBT_CHECK(iv.size() <= md.m.size(), "rays-count", iv.size() << " intervals for " << md.m.size() << " fields");
    for (auto &i : iv) {
      PBT_CHECK(i.t0 <= i.t1 && i.t1 >= 0, "rays-order", "interval [" << i.t0 << "," << i.t1 << "]");
      PBT_CHECK(i.stepLength > 0, "rays-step", "step length " << i.stepLength);
    }
    // each field's part, in local space so that the window does not matter
    auto inField = [&](const Member &m, double t, double margin) {   // 1, 0, -1 unknown
      V3d p = a + d * t, o = p, l; if (!m.usable(p)) { return -1; } if (m.hasOs) { m.os.inverse().multVecMatrix(p, o); } m.f->mapping()->worldToLocal(o, l);
      int r = 1; for (int k = 0; k < 3; ++k) { if (!(fabs(l[k]) < 1e9)) { return -1; } if (l[k] < -margin || l[k] > 1 + margin) { r = std::min(r, 0); if (l[k] > -3 * margin && l[k] < 1 + 3 * margin) { return -1; } } else if (l[k] < margin || l[k] > 1 - margin) { return -1; } }
      return r;
    };
    std::vector<double> ts; for (int k = 0; k < 40; ++k) { ts.push_back(s.real(0, 40 / len)); }
    for (auto &i : iv) { for (int k = 0; k < 5; ++k) { double lo = std::max(0.0, i.t0), hi = i.t1; ts.push_back(lo + (hi - lo) * s.unit()); } ts.push_back(i.t1 + 0.01 / len); if (i.t0 > 0.01 / len) { ts.push_back(i.t0 - 0.01 / len); } }
    for (double t : ts) {
      int cnt = 0; bool unk = false; for (auto &m : md.m) { int w = inField(m, t, 1e-5); if (w < 0) { unk = true; } else { cnt += w; } }
      if (unk) { continue; }
      int got = 0; bool edge = false; for (auto &i : iv) { double e = 1e-7 * (1 + fabs(i.t0) + fabs(i.t1)); if (fabs(t - i.t0) < e || fabs(t - i.t1) < e) { edge = true; } got += t >= i.t0 && t <= i.t1; }
      if (edge) { continue; }
      c.nontrivial |= cnt > 0;
      if (got != cnt) {
        std::ostringstream o; for (auto &m : md.m) { o << m.f->mapping()->className() << (m.hasOs ? "+os" : "") << " "; }
        PBT_FAIL("rays-inside", "ray from " << vs(a) << " along " << vs(d) << ": at " << t << " it is in " << got << " intervals and " << cnt << " fields (" << o.str() << ")");
      }
    }
  }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;
