// C10: resampling a field to another resolution.
#include "common.h"
#include "scaled.h"
#include "Field3D/Resample.h"
using namespace fx;

// A value with an uncertainty flag: rounding decides whether a voxel on the edge of a
// filter counts, and results that depend on it are not compared.
struct Val { double v[3]; bool amb; };
struct VGrid { V3i res; std::vector<Val> d;
  void reset(const V3i &r) { res = r; d.assign((size_t)r.x * r.y * r.z, Val{{0, 0, 0}, false}); }
  Val &at(int i, int j, int k) { return d[((size_t)k * res.y + j) * res.x + i]; } };

template <class Filter> struct Tie { static bool at(double) { return false; } };
template <> struct Tie<BoxFilter> { static bool at(double t) { return fabs(t - 0.5) < 1e-4; } };
template <> struct Tie<MinFilter> { static bool at(double t) { return fabs(t - 0.5) < 1e-4; } };
template <> struct Tie<MaxFilter> { static bool at(double t) { return fabs(t - 0.5) < 1e-4; } };
template <class Filter> struct Kind { static const int k = 0; };
template <> struct Kind<MinFilter> { static const int k = 1; };
template <> struct Kind<MaxFilter> { static const int k = 2; };

//! Distance is in voxels of the coarser of the two grids' ... when shrinking the filter is
//! as wide as 'support' target voxels, when enlarging 'support' source voxels
template <class Filter> void pass(VGrid &in, VGrid &out, const V3i &res, int dim, const Filter &f, double width)
{
  out.reset(res);
  double ns = in.res[dim], nt = res[dim];
  bool up = nt > ns;
  for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i) {
    V3i t(i, j, k);
    double tp = t[dim] + 0.5, wsum = 0, acc[3] = {0, 0, 0}; bool amb = false, any = false, edge = false;
    for (int q = 0; q < in.res[dim]; ++q) {
      double dist = up ? fabs(tp * ns / nt - (q + 0.5)) : fabs((q + 0.5) * nt / ns - tp);
      double w = f.eval((float)dist);
      V3i x = t; x[dim] = q; Val &v = in.at(x.x, x.y, x.z);
      if (Tie<Filter>::at(dist / width)) { amb = true; continue; }
      if (fabs(dist - f.support()) < 1e-4) { edge = true; }
      if (dist > f.support() + 1e-4) { continue; }
      if (w == 0) { continue; }
      if (v.amb) { amb = true; }
      wsum += w;
      for (int a = 0; a < 3; ++a) {
        if (Kind<Filter>::k == 0) { acc[a] += w * v.v[a]; }
        else if (!any) { acc[a] = v.v[a]; }
        else { acc[a] = Kind<Filter>::k == 1 ? std::min(acc[a], v.v[a]) : std::max(acc[a], v.v[a]); }
      }
      any = true;
    }
    Val r; r.amb = amb;
    for (int a = 0; a < 3; ++a) { r.v[a] = Kind<Filter>::k == 0 ? (wsum > 0 ? acc[a] / wsum : 0) : any ? acc[a] : 0; }
    if (Kind<Filter>::k == 0 && fabs(wsum) < 1e-3 && (any || edge)) { r.amb = true; }
    out.at(i, j, k) = r;
  }
}

template <class Field_T> void decorate(Src &s, Field_T &f, const MapSpec &m)
{
  f.name = "density_" + std::to_string(s.below(100)); f.attribute = "attr" + std::to_string(s.below(100));
  f.setMapping(mkMap(m));
  f.metadata().setIntMetadata("an_int", (int)s.below(1000));
  f.metadata().setStrMetadata("a_str", "v" + std::to_string(s.below(1000)));
}

template <class T, class Filter> void runCase(Src &s, Ctx &c, const Filter &f, double width, const char *fname)
{
  V3i res = genRes(s, 12), nres = genRes(s, 14);
  for (int a = 0; a < 3; ++a) { switch (s.below(4)) { case 0: nres[a] = res[a]; break; case 1: nres[a] = (res[a] + 1) / 2; break; case 2: nres[a] = std::min(20, res[a] * 2); break; } }
  bool flat = res.x < 2 || res.y < 2 || res.z < 2;
  if (flat && s.chance(80)) { for (int a = 0; a < 3; ++a) { res[a] = std::max(res[a], 2); } flat = false; }
  bool off = s.chance(8);
  Box3i b = zbox(res); if (off) { V3i o(0); o[s.below(3)] = s.flip() ? 1 : -2; b.min += o; b.max += o; }
  Grid<T> g; genGrid(s, b, g);
  MapSpec ms = genMapSpec(s);
  c << fname << "(" << width << ") " << bs(b) << " -> " << vs(nres);
  DenseField<T> src; src.setSize(b); toField(g, src); decorate(s, src, ms);
  SparseField<T> ssrc; ssrc.setBlockOrder((int)s.range(1, 4)); ssrc.setSize(b); ssrc.clear(mkConst<T>(0)); toFieldSparse(g, ssrc, mkConst<T>(0)); ssrc.name = src.name; ssrc.attribute = src.attribute; ssrc.setMapping(src.mapping()); ssrc.copyMetadata(src);
  DenseField<T> dst; SparseField<T> sdst;
  if (s.flip()) { dst.setSize(genBox(s, 6)); dst.clear(mkConst<T>(7)); sdst.setSize(genBox(s, 6)); sdst.clear(mkConst<T>(7)); }
  if (s.chance(30)) {   // a target that looks like the result, or one of the steps to it, but for its extents
    Box3i w = zbox(s.flip() ? nres : s.flip() ? V3i(nres.x, res.y, res.z) : V3i(nres.x, nres.y, res.z)), e = w;
    if (s.chance(75)) { e.min -= V3i((int)s.range(0, 3)); e.max += V3i((int)s.range(0, 3), 0, 1); }
    dst.setSize(e, w); dst.clear(mkConst<T>(7)); sdst.setSize(e, w); sdst.clear(mkConst<T>(7));
    c.label("target of the same window");
  }
  bool ok = resample(src, dst, nres, f), ok2 = resample(ssrc, sdst, nres, f);
  PBT_CHECK(ok == ok2, "resample-status", "dense returned " << ok << ", sparse returned " << ok2);
  if (off || flat) { if (ok) { c.label("flat-ok"); } PBT_CHECK(!ok || !off, "resample-origin", "a source off the origin was accepted"); if (!ok) { c.label("refused"); return; } }
  PBT_CHECK(ok, "resample-status", "resampling failed");
  for (FieldRes *r : std::vector<FieldRes *>{&dst, &sdst}) {
    PBT_CHECK(r->extents() == zbox(nres) && r->dataWindow() == zbox(nres), "resample-size", "result is " << bs(r->extents()) << bs(r->dataWindow()));
    PBT_CHECK(r->name == src.name && r->attribute == src.attribute, "resample-meta", "result is called " << r->name << ":" << r->attribute);
    PBT_CHECK(r->metadata().intMetadata("an_int", -1) == src.metadata().intMetadata("an_int", -2) && r->metadata().strMetadata("a_str", "") == src.metadata().strMetadata("a_str", "-"), "resample-meta", "metadata was not carried over");
    PBT_CHECK(r->mapping()->className() == src.mapping()->className(), "resample-map", "mapping class changed");
    if (ms.kind == 1) {
      for (int q = 0; q < 3; ++q) { V3d l(s.unit(), s.unit(), s.unit()), w1, w2; float t = (float)s.real(-1, 1); src.mapping()->localToWorld(l, w1, t); r->mapping()->localToWorld(l, w2, t);
        PBT_CHECK((w1 - w2).length() < 1e-9 * (1 + w1.length()), "resample-map", "the field moved in space"); }
    }
    V3d vs1; r->mapping()->localToVoxel(V3d(1), vs1); PBT_CHECK((vs1 - V3d(nres)).length() < 1e-9, "resample-map", "the mapping does not cover the new resolution");
  }
  VGrid a, x, y, z; a.reset(res);
  double mx = 0;
  forVox(zbox(res), [&](int i, int j, int k) { Val &v = a.at(i, j, k); for (int q = 0; q < 3; ++q) { v.v[q] = q < Comp<T>::n ? Comp<T>::get(g.at(i + b.min.x, j + b.min.y, k + b.min.z), q) : 0; mx = std::max(mx, fabs(v.v[q])); } });
  V3i r1(nres.x, res.y, res.z), r2(nres.x, nres.y, res.z);
  pass(a, x, r1, 0, f, width); pass(x, y, r2, 1, f, width); pass(y, z, nres, 2, f, width);
  double eps = (sizeof(typename Comp<T>::type) == 2 ? 0.03 : 2e-5) * (1 + mx) * (Kind<Filter>::k ? 0.1 : 1) * (1 + width);
  int n = 0;
  forVox(zbox(nres), [&](int i, int j, int k) {
    Val &v = z.at(i, j, k);
    T d = dst.value(i, j, k), e = sdst.value(i, j, k);
    PBT_CHECK(diff(d, e) <= eps * 1e-3 + 0, "resample-class", "dense voxel (" << i << "," << j << "," << k << ") is " << vs(d) << " and sparse " << vs(e));
    if (v.amb) { return; }
    ++n;
    for (int q = 0; q < Comp<T>::n; ++q) {
      PBT_CHECK(fabs(Comp<T>::get(d, q) - v.v[q]) <= eps, "resample-value", "voxel (" << i << "," << j << "," << k << ") is " << vs(d) << ", component " << q << " should be " << v.v[q]);
    }
  });
  c.nontrivial = n > 0 && nres != res;
  if (n < (int)vol(zbox(nres))) { c.label("ties"); }
  // the source is untouched
  checkGrid<T>(src, g, "resample-source", "source after resampling");
  checkGrid<T>(ssrc, g, "resample-source", "sparse source after resampling");
}
template <class T> void filterCase(Src &s, Ctx &c)
{
  float w = s.flip() ? 1.0f : (float)s.range(1, 6) * 0.5f;
  switch (s.below(6)) {
  case 0: runCase<T>(s, c, TriangleFilter(w), w, "triangle"); break;
  case 1: runCase<T>(s, c, BoxFilter(w), w, "box"); break;
  case 2: w = std::max(w, 1.0f); runCase<T>(s, c, MinFilter(w), w, "min"); break;
  case 3: w = std::max(w, 1.0f); runCase<T>(s, c, MaxFilter(w), w, "max"); break;
  case 4: w = std::min(w * 2, 2.0f); runCase<T>(s, c, GaussianFilter(2.0f, w), w, "gaussian"); break;   // wider ones do not reach zero at their support
  default: runCase<T>(s, c, MitchellFilter(w), w, "mitchell"); break;
  }
}
PBT_TEST(resample, 6000, 80000, "dense and sparse fields of four voxel types resampled up, down and unchanged per axis with six filters of generated width, target fresh or with old contents: every voxel against a separable reference in double, definition, mapping, metadata, source untouched; non-trivial = resolution changes and voxels compared")
{
  int t = (int)s.weighted({3, 1, 1, 2});
  c << (t == 0 ? "float " : t == 1 ? "half " : t == 2 ? "double " : "V3f ");
  switch (t) { case 0: filterCase<float>(s, c); break; case 1: filterCase<half>(s, c); break; case 2: filterCase<double>(s, c); break; default: filterCase<V3f>(s, c); }
}

// minima and maxima are voxels of the source, whatever their size
template <class T> double extreme(uint64_t h)
{
  typedef typename Comp<T>::type S;
  double m = sizeof(S) == 2 ? 65504 : sizeof(S) == 4 ? std::numeric_limits<float>::max() : (h & 64) ? 1e300 : (double)std::numeric_limits<float>::max();
  double v = (h & 7) == 0 ? std::numeric_limits<double>::infinity() : (h & 7) < 4 ? m : (h & 7) == 4 ? m / 2 : (h & 7) == 5 ? 0 : (double)(h >> 40) * 1e-6;
  return (h & 8) ? -v : v;
}
template <class T, class Filter> void extremeCase(Src &s, Ctx &c, const Filter &f)
{
  V3i res, nres; for (int a = 0; a < 3; ++a) { res[a] = (int)s.range(2, 6); nres[a] = (int)s.range(1, 8); }
  bool one = s.chance(30); uint64_t seed = s.below(1u << 30);
  Grid<T> g; g.reset(zbox(res), mkConst<T>(0)); VGrid a, x, y, z; a.reset(res);
  forVox(zbox(res), [&](int i, int j, int k) { Val &v = a.at(i, j, k); for (int q = 0; q < Comp<T>::n; ++q) { v.v[q] = extreme<T>(one ? mix(seed) : mix(vhash(seed, i, j, k) * 8 + q)); Comp<T>::set(g.at(i, j, k), q, v.v[q]); v.v[q] = Comp<T>::get(g.at(i, j, k), q); } });
  c << vs(res) << " -> " << vs(nres) << (one ? " constant" : "");
  DenseField<T> src, dst; src.setSize(res); toField(g, src);
  SparseField<T> ssrc, sdst; ssrc.setSize(res); ssrc.clear(mkConst<T>(0)); toFieldSparse(g, ssrc, mkConst<T>(0));
  PBT_CHECK(resample(src, dst, nres, f) && resample(ssrc, sdst, nres, f), "resample-status", "failed");
  V3i r1(nres.x, res.y, res.z), r2(nres.x, nres.y, res.z);
  pass(a, x, r1, 0, f, 1); pass(x, y, r2, 1, f, 1); pass(y, z, nres, 2, f, 1);
  forVox(zbox(nres), [&](int i, int j, int k) {
    Val &v = z.at(i, j, k); if (v.amb && !one) { return; }
    T d = dst.value(i, j, k), e = sdst.value(i, j, k);
    for (int q = 0; q < Comp<T>::n; ++q) {
      double w = one ? a.at(0, 0, 0).v[q] : v.v[q];
      PBT_CHECK(Comp<T>::get(d, q) == w && Comp<T>::get(e, q) == w, "resample-extreme", "voxel (" << i << "," << j << "," << k << "), component " << q << ", is " << Comp<T>::get(d, q) << " (dense) and " << Comp<T>::get(e, q) << " (sparse), should be " << w);
    }
  });
  c.nontrivial = true;
}
PBT_TEST(extremes, 3000, 40000, "fields of infinite, largest possible and ordinary voxels, also constant ones, under the minimum and maximum filters: each result is exactly the extreme voxel; non-trivial always")
{
  bool mn = s.flip(); int t = (int)s.below(4);
  c << (mn ? "min " : "max ") << (t == 0 ? "float " : t == 1 ? "half " : t == 2 ? "double " : "V3f ");
  auto go = [&](auto v) { typedef decltype(v) T; if (mn) { extremeCase<T>(s, c, MinFilter()); } else { extremeCase<T>(s, c, MaxFilter()); } };
  switch (t) { case 0: go(0.0f); break; case 1: go(half(0)); break; case 2: go(0.0); break; default: go(V3f(0)); }
}

template <class Filter> void lawCase(Src &s, Ctx &c, const Filter &f, bool positive, bool interpolating)
{
  V3i res, nres; for (int a = 0; a < 3; ++a) { res[a] = (int)s.range(2, 10); nres[a] = (int)s.range(1, 12); }
  typedef float T; Grid<T> g; genGrid(s, zbox(res), g, 0);
  DenseField<T> src, dst; src.setSize(res); toField(g, src);
  c << vs(res) << "->" << vs(nres);
  // constants are kept
  DenseField<T> con; con.setSize(res); con.clear(3.25f);
  PBT_CHECK(resample(con, dst, nres, f), "resample-status", "failed");
  forVox(zbox(nres), [&](int i, int j, int k) { PBT_CHECK(fabs(dst.value(i, j, k) - 3.25) < 1e-4, "resample-constant", "a constant field of 3.25 became " << dst.value(i, j, k) << " at (" << i << "," << j << "," << k << ")"); });
  resample(src, dst, nres, f);
  if (positive) {
    T lo = *std::min_element(g.d.begin(), g.d.end()), hi = *std::max_element(g.d.begin(), g.d.end());
    forVox(zbox(nres), [&](int i, int j, int k) { T v = dst.value(i, j, k); PBT_CHECK(v >= lo - 1e-3 && v <= hi + 1e-3, "resample-range", "voxel " << v << " is outside the source's range " << lo << ".." << hi); });
  }
  // mirroring commutes with resampling (no direction is favoured)
  int ax = (int)s.below(3);
  DenseField<T> mir, dm; mir.setSize(res);
  forVox(zbox(res), [&](int i, int j, int k) { V3i x(i, j, k); x[ax] = res[ax] - 1 - x[ax]; mir.lvalue(x.x, x.y, x.z) = g.at(i, j, k); });
  resample(mir, dm, nres, f);
  if (!(interpolating && false)) {
    forVox(zbox(nres), [&](int i, int j, int k) { V3i x(i, j, k); x[ax] = nres[ax] - 1 - x[ax]; double d = fabs(dm.value(x.x, x.y, x.z) - dst.value(i, j, k));
      PBT_CHECK(d < 2e-2, "resample-mirror", "mirroring axis " << ax << " changes the result by " << d << " at (" << i << "," << j << "," << k << ")"); });
  }
  // a linear filter reproduces the field at its own resolution
  if (interpolating) {
    resample(src, dst, res, f);
    forVox(zbox(res), [&](int i, int j, int k) { PBT_CHECK(fabs(dst.value(i, j, k) - g.at(i, j, k)) < 1e-3, "resample-identity", "resampling to the same resolution changed voxel (" << i << "," << j << "," << k << ")"); });
  }
  c.nontrivial = res != nres;
}
PBT_TEST(resample_laws, 4000, 50000, "constants stay constant, positive filters stay in range, mirroring commutes, triangle filter is the identity at the same resolution; non-trivial = resolution changes")
{
  switch (s.below(3)) {
  case 0: c << "triangle "; lawCase(s, c, TriangleFilter(), true, true); break;
  case 1: c << "gaussian "; lawCase(s, c, GaussianFilter(), true, false); break;
  default: c << "mitchell "; lawCase(s, c, MitchellFilter(), false, false); break;
  }
}
//! Voxels times a power of two
template <class T, class Filter> void scaledCase(Src &s, Ctx &c, const Filter &f)
{
  V3i res, nres; for (int a = 0; a < 3; ++a) { res[a] = (int)s.range(2, 8); nres[a] = (int)s.range(1, 12); }
  int k = genPow2(s); Grid<T> g; genGrid(s, zbox(res), g); Grid<T> h = timesPow2(g, k); double mag = largest(g);
  c << vs(res) << " -> " << vs(nres) << " times 2^" << k;
  DenseField<T> src[2], dst[2]; SparseField<T> ssrc[2], sdst[2];
  for (int q = 0; q < 2; ++q) {
    src[q].setSize(res); toField(q ? h : g, src[q]);
    ssrc[q].setSize(res); ssrc[q].clear(mkConst<T>(0)); toFieldSparse(q ? h : g, ssrc[q], mkConst<T>(0));
    PBT_CHECK(resample(src[q], dst[q], nres, f) && resample(ssrc[q], sdst[q], nres, f), "resample-status", "failed");
  }
  forVox(zbox(nres), [&](int i, int j, int l) {
    T a = dst[0].value(i, j, l), b = dst[1].value(i, j, l);
    PBT_CHECK(isScaled(a, b, k, mag), "resample-scaled", "voxel (" << i << "," << j << "," << l << ") is " << vs(a) << ", of the source times 2^" << k << " it is " << vs(b));
    a = sdst[0].value(i, j, l); b = sdst[1].value(i, j, l);
    PBT_CHECK(isScaled(a, b, k, mag), "resample-scaled", "sparse voxel (" << i << "," << j << "," << l << ") is " << vs(a) << ", of the source times 2^" << k << " it is " << vs(b));
  });
  c.nontrivial = mag > 0;
}
PBT_TEST(scaled, 1500, 20000, "voxels times a power of two from 2^-30 to 2^30 under six filters: the result is that of the original voxels times that power; non-trivial = not all zero")
{
  int t = (int)s.below(3); c << (t == 0 ? "float " : t == 1 ? "double " : "V3f ");
  auto go = [&](auto v) {
    typedef decltype(v) T;
    switch (s.below(6)) {
    case 0: c << "triangle "; scaledCase<T>(s, c, TriangleFilter()); break;
    case 1: c << "box "; scaledCase<T>(s, c, BoxFilter()); break;
    case 2: c << "min "; scaledCase<T>(s, c, MinFilter()); break;
    case 3: c << "max "; scaledCase<T>(s, c, MaxFilter()); break;
    case 4: c << "gaussian "; scaledCase<T>(s, c, GaussianFilter()); break;
    default: c << "mitchell "; scaledCase<T>(s, c, MitchellFilter()); break;
    }
  };
  switch (t) { case 0: go(0.0f); break; case 1: go(0.0); break; default: go(V3f(0)); }
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); }; } } g_init;
