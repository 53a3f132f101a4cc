// C09: staggered (MAC) fields: sampling and conversion to and from cell-centred fields.
#include "common.h"
#include "scaled.h"
#include "Field3D/FieldInterp.h"
#include "Field3D/MACFieldUtil.h"
using namespace fx;

template <class T> struct Faces
{
  Box3i dw; Grid<typename Comp<T>::type> g[3];
  void gen(Src &s, const Box3i &b) { dw = b; for (int a = 0; a < 3; ++a) { Box3i f = b; f.max[a]++; genGrid(s, f, g[a]); } }
};
template <class T> typename MACField<T>::Ptr mkMac(const Def &d, const Faces<T> &f)
{
  typename MACField<T>::Ptr m(new MACField<T>); m->setSize(d.ext, d.dw);
  m->clear(mkConst<T>(0));
  forVox(f.g[0].b, [&](int i, int j, int k) { m->u(i, j, k) = f.g[0].at(i, j, k); });
  forVox(f.g[1].b, [&](int i, int j, int k) { m->v(i, j, k) = f.g[1].at(i, j, k); });
  forVox(f.g[2].b, [&](int i, int j, int k) { m->w(i, j, k) = f.g[2].at(i, j, k); });
  return m;
}
static V3d genPoint(Src &s, const Box3i &b, int out = 3)
{
  V3d p;
  for (int a = 0; a < 3; ++a) {
    switch (s.below(5)) {
    case 0: p[a] = s.range(b.min[a], b.max[a]) + 0.5; break;
    case 1: p[a] = s.range(b.min[a], b.max[a] + 1); break;
    case 2: p[a] = s.real(b.min[a] - out, b.max[a] + 1 + out); break;
    default: p[a] = s.real(b.min[a], b.max[a] + 1); break;
    }
  }
  return p;
}
template <class R> double refLin(const Grid<R> &g, const V3d &p)
{
  int c[3]; double f[3], r = 0;
  for (int a = 0; a < 3; ++a) { c[a] = (int)floor(p[a]); f[a] = p[a] - c[a]; }
  for (int q = 0; q < 8; ++q) {
    r += (q & 1 ? f[0] : 1 - f[0]) * (q & 2 ? f[1] : 1 - f[1]) * (q & 4 ? f[2] : 1 - f[2]) *
         Comp<R>::get(g.clamped(c[0] + (q & 1), c[1] + ((q >> 1) & 1), c[2] + (q >> 2)), 0);
  }
  return r;
}
static double mono(double f1, double f2, double f3, double f4, double t, double tie, bool &amb, bool chance = false)
{
  double dk = 0.5 * (f3 - f1), dk1 = 0.5 * (f4 - f2), dl = f3 - f2;
  if (dl == 0) { dk = dk1 = 0; if (chance) { amb = true; } } else if (fabs(dl) < tie) { amb = true; }
  return (dk + dk1 - 2 * dl) * t * t * t + (3 * dl - 2 * dk - dk1) * t * t + dk * t + f2;
}
template <class R> double refCub(const Grid<R> &g, const V3d &pp, double tie, bool &amb)
{
  int c[3]; double t[3];
  for (int a = 0; a < 3; ++a) { double p = std::min(std::max(pp[a], (double)g.b.min[a]), (double)g.b.max[a]); c[a] = (int)floor(p); t[a] = p - c[a]; }
  double x[4], zz[4][4][4];
  for (int i = 0; i < 4; ++i) {
    double y[4];
    for (int j = 0; j < 4; ++j) {
      double *z = zz[i][j]; for (int k = 0; k < 4; ++k) { z[k] = Comp<R>::get(g.clamped(c[0] + i - 1, c[1] + j - 1, c[2] + k - 1), 0); }
      y[j] = mono(z[0], z[1], z[2], z[3], t[2], tie, amb);
    }
    x[i] = mono(y[0], y[1], y[2], y[3], t[1], tie, amb, memcmp(zz[i][1], zz[i][2], sizeof(zz[i][1])) != 0);   // equal only by chance: rounding may see a difference
  }
  return mono(x[0], x[1], x[2], x[3], t[0], tie, amb, memcmp(zz[1], zz[2], sizeof(zz[1])) != 0);
}

template <class T> void macCase(Src &s, Ctx &c)
{
  typedef typename Comp<T>::type R;
  bool half_ = sizeof(R) == 2;
  Def d = genDef(s, 7, 10); Faces<T> f; f.gen(s, d.dw);
  typename MACField<T>::Ptr m = mkMac<T>(d, f);
  c << bs(d.ext) << bs(d.dw);
  double scale = 130, el = (half_ ? 4e-3 : 2e-6) * scale, ec = (half_ ? 0.05 : 1e-4) * scale, tie = (half_ ? 0.04 : 1e-3) * scale;
  // cell centre values
  for (int q = 0; q < 6; ++q) {
    V3i x = genVoxel(s, d.dw); T v = m->value(x.x, x.y, x.z);
    for (int a = 0; a < 3; ++a) {
      V3i y = x; y[a]++;
      double ex = 0.5 * (Comp<R>::get(f.g[a].at(x.x, x.y, x.z), 0) + Comp<R>::get(f.g[a].at(y.x, y.y, y.z), 0));
      PBT_CHECK(fabs(Comp<T>::get(v, a) - ex) <= el, "mac-centre", "cell value of voxel " << vs(x) << " component " << a << " is " << Comp<T>::get(v, a) << ", the mean of its two faces is " << ex);
    }
  }
  LinearMACFieldInterp<T> li; CubicMACFieldInterp<T> ci;
  int cub = 0;
  for (int q = 0; q < 8; ++q) {
    V3d p = genPoint(s, d.dw);
    T l = li.sample(*m, p), cb = ci.sample(*m, p);
    for (int a = 0; a < 3; ++a) {
      V3d fp = p - V3d(0.5); fp[a] += 0.5;
      double ex = refLin(f.g[a], fp);
      PBT_CHECK(fabs(Comp<T>::get(l, a) - ex) <= el, "mac-linear", "linear sample at " << vs(p) << " component " << a << " is " << Comp<T>::get(l, a) << " expected " << ex);
      double one = li.sample(*m, a == 0 ? MACCompU : a == 1 ? MACCompV : MACCompW, p);
      PBT_CHECK(fabs(one - ex) <= el, "mac-linear-comp", "linear sample of component " << a << " at " << vs(p) << " is " << one << " expected " << ex);
      bool amb = false; double ey = refCub(f.g[a], fp, tie, amb);
      if (!amb) { cub++; PBT_CHECK(fabs(Comp<T>::get(cb, a) - ey) <= ec, "mac-cubic", "cubic sample at " << vs(p) << " component " << a << " is " << Comp<T>::get(cb, a) << " expected " << ey); }
    }
  }
  // on a face both give the stored value
  for (int q = 0; q < 4; ++q) {
    int a = (int)s.below(3); V3i x = genVoxel(s, f.g[a].b); V3d p = V3d(x) + V3d(0.5); p[a] -= 0.5;
    double ex = Comp<R>::get(f.g[a].at(x.x, x.y, x.z), 0);
    double l = Comp<T>::get(li.sample(*m, p), a), cb = Comp<T>::get(ci.sample(*m, p), a);
    PBT_CHECK(l == ex, "mac-face", "linear sample on face " << vs(x) << " component " << a << " is " << l << ", the face holds " << ex);
    PBT_CHECK(cb == ex, "mac-face", "cubic sample on face " << vs(x) << " component " << a << " is " << cb << ", the face holds " << ex);
  }
  c.nontrivial = vol(d.dw) > 1 && cub > 0;
}
PBT_TEST(mac_sample, 16000, 200000, "staggered fields of three vector types with generated faces, points in and around the window: cell values, linear (whole and per component) and cubic samples against references on each face grid, exact on faces; non-trivial = more than one voxel")
{
  int t = (int)s.below(3); c << typeName(3 + t) << " ";
  withVector(t, [&](auto v) { macCase<decltype(v)>(s, c); });
}

template <class T, class CC> void convertCase(Src &s, Ctx &c)
{
  typedef typename Comp<T>::type R;
  Def d = genDef(s, 6, 8); Faces<T> f; f.gen(s, d.dw);
  typename MACField<T>::Ptr m = mkMac<T>(d, f);
  M44d L; V3d rot(0);
  bool matrix = s.chance(70);
  if (matrix) {
    M44d S, Rm, Tm; double k = s.real(0.25, 4); S.setScale(V3d(k, s.flip() ? k : s.real(0.25, 4), k));
    switch (s.below(3)) { case 0: break; case 1: rot[s.below(3)] = s.real(-3, 3); break; default: rot = V3d(s.real(-1.4, 1.4), s.real(-1.4, 1.4), s.real(-1.4, 1.4)); }
    Rm.setEulerAngles(rot); Tm.setTranslation(V3d(s.real(-5, 5), 1, 2));
    L = S * Rm * Tm;
    MatrixFieldMapping::Ptr mm(new MatrixFieldMapping); mm->setLocalToWorld(L); m->setMapping(mm);
  } else { m->setMapping(FieldMapping::Ptr(new NullFieldMapping)); }
  M44d Rw; Rw.setEulerAngles(rot);   // simulation space to world, for directions
  double eps = (sizeof(R) == 2 ? 8e-3 : 1e-4) * 250;
  if (rot.length() < 4e-4) { eps += 4e-4 * 250; }   // such rotations are left out on purpose
  c << bs(d.ext) << bs(d.dw) << " rotation " << vs(rot);
  // to cell-centred
  typename CC::Ptr cc(new CC);
  convertMACToCellCentered<T, CC>(m, cc);
  PBT_CHECK(cc->extents() == d.ext && cc->dataWindow() == d.dw, "mac-convert-def", "converted field has " << bs(cc->extents()) << bs(cc->dataWindow()));
  PBT_CHECK(cc->mapping()->isIdentical(m->mapping(), 1e-9), "mac-convert-def", "converted field has another mapping");
  Grid<T> cell; cell.reset(d.dw, mkConst<T>(0));
  forVox(d.dw, [&](int i, int j, int k) {
    V3d e; for (int a = 0; a < 3; ++a) { V3i x(i, j, k), y = x; y[a]++; e[a] = 0.5 * (Comp<R>::get(f.g[a].at(x.x, x.y, x.z), 0) + Comp<R>::get(f.g[a].at(y.x, y.y, y.z), 0)); }
    V3d w; Rw.multDirMatrix(e, w);
    T v = cc->value(i, j, k);
    for (int a = 0; a < 3; ++a) { PBT_CHECK(fabs(Comp<T>::get(v, a) - w[a]) <= eps, "mac-to-cell", "converted voxel (" << i << "," << j << "," << k << ") is " << vs(v) << " expected " << vs(w)); }
  });
  // back to staggered
  genGrid(s, d.dw, cell, 0);
  forVox(d.dw, [&](int i, int j, int k) { cc->lvalue(i, j, k) = cell.at(i, j, k); });
  typename MACField<T>::Ptr n(new MACField<T>);
  if (s.flip()) { n->setSize(genBox(s, 4)); }
  convertCellCenteredToMAC<CC, T>(cc, n);
  PBT_CHECK(n->extents() == d.ext && n->dataWindow() == d.dw, "mac-convert-def", "staggered result has " << bs(n->extents()) << bs(n->dataWindow()));
  M44d inv = Rw.inverse();
  for (int a = 0; a < 3; ++a) {
    Box3i fb = d.dw; fb.max[a]++;
    forVox(fb, [&](int i, int j, int k) {
      V3i x(i, j, k), lo = x, hi = x; lo[a] = std::max(x[a] - 1, d.dw.min[a]); hi[a] = std::min(x[a], d.dw.max[a]);
      V3d A, B, wa, wb; for (int q = 0; q < 3; ++q) { A[q] = Comp<T>::get(cell.at(lo.x, lo.y, lo.z), q); B[q] = Comp<T>::get(cell.at(hi.x, hi.y, hi.z), q); }
      inv.multDirMatrix(A, wa); inv.multDirMatrix(B, wb);
      double ex = 0.5 * (wa[a] + wb[a]), got = Comp<R>::get(a == 0 ? n->u(i, j, k) : a == 1 ? n->v(i, j, k) : n->w(i, j, k), 0);
      PBT_CHECK(fabs(got - ex) <= eps, "cell-to-mac", "staggered face " << vs(x) << " component " << a << " is " << got << " expected " << ex << " for cell values rotated by " << vs(rot));
    });
  }
  c.nontrivial = vol(d.dw) > 1;
  if (rot.x != 0 && rot.y != 0) { c.label("multi-axis-rotation"); }
}
PBT_TEST(mac_convert, 8000, 100000, "staggered to cell-centred (dense and sparse) and back, under mappings with scale and rotation: cell values are face means turned into world axes, faces are neighbour means turned back, border faces take their one neighbour; non-trivial = more than one voxel")
{
  int t = (int)s.below(3); bool sp = s.flip(); c << typeName(3 + t) << (sp ? " sparse " : " dense ");
  withVector(t, [&](auto v) { typedef decltype(v) T; if (sp) { convertCase<T, SparseField<T> >(s, c); } else { convertCase<T, DenseField<T> >(s, c); } });
}
//! Lookups of faces times a power of two
template <class T> void scaledCase(Src &s, Ctx &c)
{
  Def d = genDef(s, 6, 8); int k = genPow2(s); Faces<T> f, h; f.gen(s, d.dw); h = f; double mag = 0;
  for (int a = 0; a < 3; ++a) { h.g[a] = timesPow2(f.g[a], k); mag = std::max(mag, largest(f.g[a])); }
  typename MACField<T>::Ptr m = mkMac<T>(d, f), n = mkMac<T>(d, h);
  c << bs(d.dw) << " times 2^" << k;
  LinearMACFieldInterp<T> li; CubicMACFieldInterp<T> ci;
  for (int q = 0; q < 8; ++q) {
    V3d p = onGrid64(genPoint(s, d.dw)); V3i x = genVoxel(s, d.dw);
    T a = li.sample(*m, p), b = li.sample(*n, p); PBT_CHECK(isScaled(a, b, k, mag), "mac-scaled", "linear lookup at " << vs(p) << " is " << vs(a) << ", of the same faces times 2^" << k << " it is " << vs(b));
    a = ci.sample(*m, p); b = ci.sample(*n, p); PBT_CHECK(isScaled(a, b, k, mag), "mac-scaled", "cubic lookup at " << vs(p) << " is " << vs(a) << ", of the same faces times 2^" << k << " it is " << vs(b));
    a = m->value(x.x, x.y, x.z); b = n->value(x.x, x.y, x.z); PBT_CHECK(isScaled(a, b, k, mag), "mac-scaled", "cell " << vs(x) << " is " << vs(a) << ", of the same faces times 2^" << k << " it is " << vs(b));
  }
  c.nontrivial = mag > 0 && vol(d.dw) > 1;
}
PBT_TEST(scaled, 3000, 40000, "faces times a power of two from 2^-30 to 2^30: cells and linear and cubic lookups are those of the original faces times that power; non-trivial = several voxels, not all zero")
{
  if (s.flip()) { c << "V3f "; scaledCase<V3f>(s, c); } else { c << "V3d "; scaledCase<V3d>(s, c); }
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 20}; }; } } g_init;
