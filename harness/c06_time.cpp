// C06: time-varying mappings interpolate their samples.
#include "common.h"
#include "Field3D/Curve.h"
using namespace fx;

template <class T> T lerpT(const T &a, const T &b, double t) { return T(a * (1 - t) + b * t); }
template <> M44d lerpT(const M44d &a, const M44d &b, double t) { M44d r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r[i][j] = a[i][j] * (1 - t) + b[i][j] * t; } return r; }
//! Reference curve: ordered map, clamped ends, linear in between
template <class T> T refCurve(const std::map<float, T> &m, float t)
{
  auto hi = m.upper_bound(t);
  if (hi == m.end()) { return m.rbegin()->second; }
  if (hi == m.begin()) { return m.begin()->second; }
  auto lo = hi; --lo;
  return lerpT(lo->second, hi->second, ((double)t - lo->first) / ((double)hi->first - lo->first));
}
static double dist(double a, double b) { return fabs(a - b); }
static double dist(const V3f &a, const V3f &b) { return (a - b).length(); }
static double dist(const M44d &a, const M44d &b) { double m = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m = std::max(m, fabs(a[i][j] - b[i][j])); } return m; }
static void gen(Src &s, float &v) { v = (float)s.around0(-80, 80) / 4; }
static void gen(Src &s, double &v) { v = (double)s.around0(-80, 80) / 4; }
static void gen(Src &s, V3f &v) { for (int i = 0; i < 3; ++i) { v[i] = (float)s.around0(-80, 80) / 4; } }
static void gen(Src &s, M44d &v) { v = genMatrix(s); }
//! Times on a coarse grid, so that some coincide, or next to one of them, down to what single shutter intervals measured in seconds come to
static float genT(Src &s)
{
  float t = (float)s.around0(-16, 16) / 8;
  if (s.chance(25)) { t += std::ldexp((float)s.range(-4, 4), -(int)s.range(6, 21)); }
  return t;
}

template <class T> void curveCase(Src &s, Ctx &c)
{
  Curve<T> cv; std::map<float, T> ref;
  int n = (int)s.range(0, 8);
  for (int q = 0; q < n; ++q) {
    if (s.chance(5)) { cv.clear(); ref.clear(); c << " clear"; continue; }
    float t = genT(s); T v; gen(s, v); cv.addSample(t, v); ref[t] = v; c << " +" << t;
  }
  PBT_CHECK(cv.numSamples() == ref.size() && cv.samples().size() == ref.size(), "curve-count", "curve has " << cv.numSamples() << " samples, expected " << ref.size());
  size_t i = 0;
  for (auto &p : ref) { PBT_CHECK(cv.samples()[i].first == p.first && dist(cv.samples()[i].second, p.second) == 0, "curve-order", "sample " << i << " is at " << cv.samples()[i].first << " expected " << p.first); ++i; }
  for (int q = 0; q < 6; ++q) {
    float t = s.flip() ? genT(s) : (float)s.real(-3, 3);
    if (!ref.empty() && s.chance(30)) { auto it = ref.begin(); std::advance(it, s.below(ref.size())); t = it->first; if (s.flip()) { t = std::nextafter(t, s.flip() ? 9.0f : -9.0f); } }
    T got = cv.linear(t);
    if (ref.empty()) { T z = Curve<T>().linear(0); PBT_CHECK(dist(got, z) == 0, "curve-empty", "empty curve"); continue; }
    T ex = refCurve(ref, t);
    PBT_CHECK(dist(got, ex) <= 1e-4, "curve-value", "curve at " << t << " differs from interpolation of its samples by " << dist(got, ex));
    if (ref.count(t)) { PBT_CHECK(dist(got, ref[t]) <= 1e-6, "curve-at-sample", "curve at its own sample " << t); }
  }
  c.nontrivial = ref.size() >= 2;
}
PBT_TEST(curve, 40000, 400000, "curves of float, vector and matrix samples added in any order, with replacement and clearing, against an ordered map; non-trivial = at least two samples")
{
  switch (s.below(4)) { case 0: c << "float"; curveCase<float>(s, c); break; case 1: c << "V3f"; curveCase<V3f>(s, c); break; case 2: c << "double"; curveCase<double>(s, c); break; default: c << "matrix"; curveCase<M44d>(s, c); }
}
static V3d xform(const V3d &p, const M44d &m)
{
  double w = p.x * m[0][3] + p.y * m[1][3] + p.z * m[2][3] + m[3][3]; V3d r;
  for (int a = 0; a < 3; ++a) { r[a] = (p.x * m[0][a] + p.y * m[1][a] + p.z * m[2][a] + m[3][a]) / w; } return r;
}
static bool near(const V3d &a, const V3d &b, double eps) { return (a - b).length() <= eps * (1 + a.length() + b.length()); }
static V3d unitP(Src &s) { return V3d(s.real(0, 1), s.real(0, 1), s.real(0, 1)); }

PBT_TEST(matrix_motion, 30000, 300000, "matrix mappings with 1-4 time samples set in shuffled order: every transform at generated times against the interpolated matrix, untimed calls equal time 0, voxel and local agree; non-trivial = two samples or more")
{
  std::map<float, M44d> ref; int n = (int)s.range(1, 4);
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping); Box3i e = genBox(s, 9);
  bool early = s.flip(); if (early) { m->setExtents(e); }
  for (int i = 0; i < n; ++i) { float t = genT(s); M44d M = genMatrix(s); ref[t] = M; m->setLocalToWorld(t, M); c << " t" << t; }
  if (!early) { m->setExtents(e); }
  c << " " << bs(e);
  V3i r = dims(e);
  for (int q = 0; q < 5; ++q) {
    float t = q == 0 ? 0.0f : s.flip() ? genT(s) : (float)s.real(-3, 3);
    if (q && s.chance(30)) { auto it = ref.begin(); std::advance(it, s.below(ref.size())); t = it->first; }
    bool untimed = q == 0;
    M44d M = refCurve(ref, t);
    V3d l = unitP(s) * 2.0 - V3d(0.5), v, w = xform(l, M), x;
    for (int a = 0; a < 3; ++a) { v[a] = e.min[a] + l[a] * r[a]; }
    if (untimed) { m->localToWorld(l, x); } else { m->localToWorld(l, x, t); }
    PBT_CHECK(near(x, w, 1e-5), "motion-local", "local " << vs(l) << " at time " << t << " is at world " << vs(x) << " expected " << vs(w));
    if (untimed) { m->voxelToWorld(v, x); } else { m->voxelToWorld(v, x, t); }
    PBT_CHECK(near(x, w, 1e-5), "motion-voxel", "voxel " << vs(v) << " at time " << t << " is at world " << vs(x) << " expected " << vs(w));
    // inverse only where the interpolated matrix is well conditioned
    double det = fabs(M.determinant()); double mx = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { mx = std::max(mx, fabs(M[i][j])); }
    if (det > 1e-2 * mx * mx * mx) {
      if (untimed) { m->worldToLocal(w, x); } else { m->worldToLocal(w, x, t); }
      PBT_CHECK(near(x, l, 1e-3), "motion-inverse", "world " << vs(w) << " at time " << t << " is at local " << vs(x) << " expected " << vs(l));
      if (untimed) { m->worldToVoxel(w, x); } else { m->worldToVoxel(w, x, t); }
      PBT_CHECK(near(x, v, 1e-3), "motion-inverse", "world " << vs(w) << " at time " << t << " is at voxel " << vs(x) << " expected " << vs(v));
    }
  }
  PBT_CHECK(m->localToWorldSamples().size() == ref.size(), "motion-samples", "sample count");
  c.nontrivial = ref.size() >= 2;
  // the untimed setter resets to one sample
  if (s.chance(30)) { M44d M = genMatrix(s); m->setLocalToWorld(M); V3d x; m->localToWorld(V3d(0.5), x, genT(s)); PBT_CHECK(near(x, xform(V3d(0.5), M), 1e-6) && m->localToWorldSamples().size() == 1, "motion-reset", "setLocalToWorld(matrix) does not reset the motion samples"); }
}
PBT_TEST(frustum_motion, 15000, 150000, "frustum mappings with 1-3 time samples: local to world against interpolated matrices and planes, inverse at the same time; non-trivial = two samples or more")
{
  std::map<float, M44d> ss, cs; std::map<float, double> nr, fr;
  bool uniform = s.flip();
  FrustumFieldMapping::Ptr m(new FrustumFieldMapping); if (uniform) { m->setZDistribution(FrustumFieldMapping::UniformDistribution); }
  Box3i e = genBox(s, 9); m->setExtents(e);
  int n = (int)s.range(1, 3);
  double fov = s.real(0.4, 1.6), asp = s.real(0.5, 2), zn = s.real(0.5, 2), zf = zn + s.real(1, 40);
  V3d rot = (unitP(s) * 6.0 - V3d(3)), tr = unitP(s) * 20.0 - V3d(10);
  for (int i = 0; i < n; ++i) {
    float t = genT(s); M44d R, T;
    R.setEulerAngles(rot + unitP(s) * 0.3); T.setTranslation(tr + unitP(s) * 4.0);   // moderate motion keeps interpolated matrices sane
    M44d cam = R * T, P = perspective(fov, asp, zn, zf, cam);
    m->setTransforms(t, P, cam); ss[t] = P; cs[t] = cam; nr[t] = zn; fr[t] = zf; c << " t" << t;
  }
  c << (uniform ? " uniform " : " perspective ") << bs(e);
  for (int q = 0; q < 4; ++q) {
    float t = q == 0 ? 0.0f : genT(s); bool untimed = q == 0;
    if (q && s.chance(30)) { auto it = ss.begin(); std::advance(it, s.below(ss.size())); t = it->first; }
    M44d P = refCurve(ss, t), C = refCurve(cs, t);
    V3d l = unitP(s), sP(2 * l.x - 1, 2 * l.y - 1, l.z), x, v, w;
    if (uniform) { double depth = zn + l.z * (zf - zn); sP.z = xform(xform(V3d(0, 0, -depth), C), P.inverse()).z; }
    w = xform(sP, P);
    if (untimed) { m->localToWorld(l, x); } else { m->localToWorld(l, x, t); }
    PBT_CHECK(near(x, w, 1e-3), "frustum-motion", "local " << vs(l) << " at time " << t << " is at world " << vs(x) << " expected " << vs(w));
    for (int a = 0; a < 3; ++a) { v[a] = e.min[a] + l[a] * dims(e)[a]; }
    V3d y; if (untimed) { m->voxelToWorld(v, y); } else { m->voxelToWorld(v, y, t); }
    PBT_CHECK(near(x, y, 1e-6), "frustum-motion", "voxel and local transforms disagree at time " << t);
    if (!uniform || ss.size() == 1) {
      if (untimed) { m->worldToLocal(x, y); } else { m->worldToLocal(x, y, t); }
      PBT_CHECK(near(y, l, 1e-3), "frustum-inverse", "world " << vs(x) << " at time " << t << " is at local " << vs(y) << " expected " << vs(l));
    }
  }
  c.nontrivial = ss.size() >= 2;
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); }; } } g_init;
