// C08: cubic sampling.
#include "common.h"
#include "scaled.h"
#include "Field3D/FieldInterp.h"
using namespace fx;

//! One-dimensional monotonic cubic in double. 'amb' is set where rounding in the
//! working type may decide differently whether the two middle values are equal
static double mono(double f1, double f2, double f3, double f4, double t, double tie, bool &amb, bool chance = false)
{
  double dk = 0.5 * (f3 - f1), dk1 = 0.5 * (f4 - f2), dl = f3 - f2;
  if (dl == 0) { dk = dk1 = 0; if (chance) { amb = true; } } else if (fabs(dl) < tie) { amb = true; }
  return (dk + dk1 - 2 * dl) * t * t * t + (3 * dl - 2 * dk - dk1) * t * t + dk * t + f2;
}
//! Tensor product reference; points are clamped to the region between the first and last voxel centre
template <class T> bool refCubic(const Grid<T> &g, const V3d &vsP, double tie, double out[3])
{
  int c[3]; double t[3]; bool amb = false;
  for (int a = 0; a < 3; ++a) {
    double p = std::min(std::max(vsP[a] - 0.5, (double)g.b.min[a]), (double)g.b.max[a]);
    c[a] = (int)floor(p); t[a] = p - c[a];
  }
  for (int n = 0; n < Comp<T>::n; ++n) {
    double x[4], zz[4][4][4];
    for (int i = 0; i < 4; ++i) {
      double y[4];
      for (int j = 0; j < 4; ++j) {
        double *z = zz[i][j];
        for (int k = 0; k < 4; ++k) { z[k] = Comp<T>::get(g.clamped(c[0] + i - 1, c[1] + j - 1, c[2] + k - 1), n); }
        y[j] = mono(z[0], z[1], z[2], z[3], t[2], tie, amb);
      }
      x[i] = mono(y[0], y[1], y[2], y[3], t[1], tie, amb, memcmp(zz[i][1], zz[i][2], sizeof(zz[i][1])) != 0);   // equal only by chance: rounding may see a difference
    }
    out[n] = mono(x[0], x[1], x[2], x[3], t[0], tie, amb, memcmp(zz[1], zz[2], sizeof(zz[1])) != 0);
  }
  return !amb;
}
template <class T> double gridScale(const Grid<T> &g) { double m = 0; for (auto &v : g.d) for (int n = 0; n < Comp<T>::n; ++n) { m = std::max(m, fabs(Comp<T>::get(v, n))); } return m; }
static V3d genPoint(Src &s, const Box3i &b, int out = 3)
{
  V3d p;
  for (int a = 0; a < 3; ++a) {
    switch (s.below(5)) {
    case 0: p[a] = s.range(b.min[a], b.max[a]) + 0.5; break;
    case 1: p[a] = s.range(b.min[a], b.max[a] + 1); break;
    case 2: p[a] = s.real(b.min[a] - out, b.max[a] + 1 + out); break;
    default: p[a] = s.real(b.min[a], b.max[a] + 1); break;
    }
  }
  return p;
}
template <class T> void fields(Src &s, const Def &d, const Grid<T> &g, int order, typename DenseField<T>::Ptr &df, typename SparseField<T>::Ptr &sf)
{
  T bg = s.flip() ? mkConst<T>(0) : g.d[0];
  df = new DenseField<T>; df->setSize(d.ext, d.dw); df->clear(mkConst<T>(0)); toField(g, *df);
  sf = new SparseField<T>; sf->setBlockOrder(order); sf->setSize(d.ext, d.dw); sf->clear(bg); toFieldSparse(g, *sf, bg);
}
template <class T> void cubicCase(Src &s, Ctx &c)
{
  bool half_ = sizeof(typename Comp<T>::type) == 2;
  int order = (int)s.range(1, 4);
  Def d = genDef(s, 10, 12);
  Grid<T> g; genGrid(s, d.dw, g);
  double scale = gridScale(g), eps = (half_ ? 0.05 : 1e-4) * (scale + 1e-3), tie = (half_ ? 0.04 : 1e-3) * scale;
  typename DenseField<T>::Ptr df; typename SparseField<T>::Ptr sf; fields(s, d, g, order, df, sf);
  c << bs(d.ext) << bs(d.dw) << " block order " << order;
  CubicFieldInterp<T> ci; typename DenseField<T>::CubicInterp dc; typename SparseField<T>::CubicInterp sc;
  int compared = 0;
  for (int q = 0; q < 10; ++q) {
    V3d p = genPoint(s, d.dw); double r[3];
    bool ok = refCubic(g, p, tie, r);
    T v[4] = {dc.sample(*df, p), sc.sample(*sf, p), ci.sample(*df, p), ci.sample(*sf, p)};
    static const char *nm[] = {"dense", "sparse", "generic on dense", "generic on sparse"};
    for (int x = 1; x < 4; ++x) { PBT_CHECK(diff(v[x], v[0]) <= eps || !ok, "cubic-agree", "cubic samples at " << vs(p) << " differ: dense " << vs(v[0]) << ", " << nm[x] << " " << vs(v[x])); }
    if (!ok) { continue; }
    compared++;
    for (int x = 0; x < 4; ++x) for (int n = 0; n < Comp<T>::n; ++n) {
      PBT_CHECK(fabs(Comp<T>::get(v[x], n) - r[n]) <= eps, "cubic-value", nm[x] << " cubic sample at " << vs(p) << " is " << vs(v[x]) << ", component " << n << " expected " << r[n]);
    }
  }
  for (int q = 0; q < 4; ++q) {
    V3i x = genVoxel(s, d.dw); V3d p = V3d(x) + V3d(0.5); T ex = g.at(x.x, x.y, x.z), v = dc.sample(*df, p);
    PBT_CHECK(same(v, ex), "cubic-centre", "dense cubic sample at the centre of voxel " << vs(x) << " is " << vs(v) << ", the voxel holds " << vs(ex));
    v = sc.sample(*sf, p); PBT_CHECK(same(v, ex), "cubic-centre", "sparse cubic sample at the centre of voxel " << vs(x) << " is " << vs(v) << ", the voxel holds " << vs(ex));
    v = ci.sample(*sf, p); PBT_CHECK(same(v, ex), "cubic-centre", "generic cubic sample at the centre of voxel " << vs(x) << " is " << vs(v) << ", the voxel holds " << vs(ex));
  }
  c.nontrivial = vol(d.dw) > 1 && compared > 0;
  if (compared < 5) { c.label("mostly-ambiguous"); }
}
PBT_TEST(cubic, 16000, 200000, "fields of six voxel types, dense and sparse, points inside, outside, on centres and faces: the cubic interpolators against a tensor-product reference in double (points where rounding decides a tie are left out), agreement between classes, exact at voxel centres; non-trivial = more than one voxel and some point compared")
{
  int t = (int)s.below(6); c << typeName(t) << " ";
  withAny(t, [&](auto v) { cubicCase<decltype(v)>(s, c); });
}

//! Laws that hold without a reference
PBT_TEST(cubic_laws, 10000, 100000, "cubic sampling reproduces constants and linear ramps away from the border, does not depend on where the data window lies, and extends the border value outwards; non-trivial = window off the origin")
{
  typedef float T;
  Box3i b = genBox(s, 9, 20); V3i off((int)s.around0(-30, 30), (int)s.around0(-30, 30), (int)s.around0(-30, 30));
  Box3i b2(b.min + off, b.max + off);
  Grid<T> g; genGrid(s, b, g);
  DenseField<T>::Ptr f(new DenseField<T>), f2(new DenseField<T>), ramp(new DenseField<T>); f->setSize(b); f2->setSize(b2); ramp->setSize(b);
  V3d k(s.around0(-8, 8), s.around0(-8, 8), s.around0(-8, 8));
  forVox(b, [&](int i, int j, int kk) { f->lvalue(i, j, kk) = g.at(i, j, kk); f2->lvalue(i + off.x, j + off.y, kk + off.z) = g.at(i, j, kk);
    ramp->lvalue(i, j, kk) = (float)(k.x * i + k.y * j + k.z * kk); });
  DenseField<T>::CubicInterp ci;
  for (int q = 0; q < 6; ++q) {
    // dyadic positions so that the shifted point is exact
    V3d p = genPoint(s, b); for (int a = 0; a < 3; ++a) { p[a] = floor(p[a] * 16) / 16; }
    T v = ci.sample(*f, p), w = ci.sample(*f2, p + V3d(off));
    PBT_CHECK(fabs(v - w) <= 1e-4 * (1 + fabs(v)), "cubic-shift", "sample at " << vs(p) << " is " << v << ", after moving the window by " << vs(off) << " it is " << w);
    V3d cl = p; for (int a = 0; a < 3; ++a) { cl[a] = std::min(std::max(p[a], b.min[a] + 0.5), b.max[a] + 0.5); }
    T e = ci.sample(*f, cl);
    PBT_CHECK(fabs(v - e) <= 1e-4 * (1 + fabs(v)), "cubic-border", "sample at " << vs(p) << " is " << v << ", at the nearest point of the border " << vs(cl) << " it is " << e);
    bool inner = true; for (int a = 0; a < 3; ++a) { inner = inner && p[a] >= b.min[a] + 1.5 && p[a] <= b.max[a] - 0.5; }
    if (inner) { double ex = k.dot(p - V3d(0.5)); T r = ci.sample(*ramp, p); PBT_CHECK(fabs(r - ex) < 1e-3 * (1 + fabs(ex)), "cubic-ramp", "ramp sampled at " << vs(p) << " is " << r << " expected " << ex); }
  }
  c << bs(b) << " moved by " << vs(off); c.nontrivial = b.min != V3i(0) || off != V3i(0);
}
//! Lookups of values times a power of two
template <class T> void scaledCase(Src &s, Ctx &c)
{
  Def d = genDef(s, 8, 12); int k = genPow2(s), order = (int)s.range(1, 4);
  Grid<T> g; genGrid(s, d.dw, g); Grid<T> h = timesPow2(g, k); double mag = largest(g);
  DenseField<T> df[2]; SparseField<T> sf[2];
  for (int q = 0; q < 2; ++q) {
    df[q].setSize(d.ext, d.dw); df[q].clear(mkConst<T>(0)); toField(q ? h : g, df[q]);
    sf[q].setBlockOrder(order); sf[q].setSize(d.ext, d.dw); sf[q].clear(mkConst<T>(0)); toFieldSparse(q ? h : g, sf[q], mkConst<T>(0));
  }
  c << bs(d.dw) << " times 2^" << k;
  CubicFieldInterp<T> gi; typename DenseField<T>::CubicInterp di; typename SparseField<T>::CubicInterp si;
  for (int q = 0; q < 8; ++q) {
    V3d p = onGrid64(genPoint(s, d.dw)); T a, b;
    a = gi.sample(df[0], p); b = gi.sample(df[1], p); PBT_CHECK(isScaled(a, b, k, mag), "cubic-scaled", "generic lookup at " << vs(p) << " is " << vs(a) << ", of the same voxels times 2^" << k << " it is " << vs(b));
    a = di.sample(df[0], p); b = di.sample(df[1], p); PBT_CHECK(isScaled(a, b, k, mag), "cubic-scaled", "dense lookup at " << vs(p) << " is " << vs(a) << ", of the same voxels times 2^" << k << " it is " << vs(b));
    a = si.sample(sf[0], p); b = si.sample(sf[1], p); PBT_CHECK(isScaled(a, b, k, mag), "cubic-scaled", "sparse lookup at " << vs(p) << " is " << vs(a) << ", of the same voxels times 2^" << k << " it is " << vs(b));
  }
  c.nontrivial = mag > 0 && vol(d.dw) > 1;
}
PBT_TEST(scaled, 4000, 50000, "voxels times a power of two from 2^-30 to 2^30: every cubic lookup is the lookup of the original voxels times that power; non-trivial = several voxels, not all zero")
{
  int t = (int)s.below(4); c << wideName(t);
  withWide(t, [&](auto v) { scaledCase<decltype(v)>(s, c); });
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 20}; }; } } g_init;
