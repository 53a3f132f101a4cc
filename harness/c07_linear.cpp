// C07: linear sampling.
#include "common.h"
#include "scaled.h"
#include "Field3D/FieldInterp.h"
using namespace fx;

template <class T> double epsFor() { return sizeof(typename Comp<T>::type) == 2 ? 4e-3 : 2e-6; }
struct D3 { double v[3]; };

//! Trilinear reference in double, clamped to the data window
template <class T> D3 refLinear(const Grid<T> &g, const V3d &vsP)
{
  D3 r = {{0, 0, 0}};
  V3d p = vsP - V3d(0.5);
  int c[3]; double f[3];
  for (int a = 0; a < 3; ++a) { c[a] = (int)floor(p[a]); f[a] = p[a] - c[a]; }
  for (int q = 0; q < 8; ++q) {
    double w = (q & 1 ? f[0] : 1 - f[0]) * (q & 2 ? f[1] : 1 - f[1]) * (q & 4 ? f[2] : 1 - f[2]);
    const T &v = g.clamped(c[0] + (q & 1), c[1] + ((q >> 1) & 1), c[2] + (q >> 2));
    for (int n = 0; n < Comp<T>::n; ++n) { r.v[n] += w * Comp<T>::get(v, n); }
  }
  return r;
}
template <class T> bool nearVal(const T &v, const D3 &r, double scale)
{
  for (int n = 0; n < Comp<T>::n; ++n) { if (!(fabs(Comp<T>::get(v, n) - r.v[n]) <= epsFor<T>() * (1 + scale))) { return false; } }
  return true;
}
template <class T> double gridScale(const Grid<T> &g) { double m = 0; for (auto &v : g.d) for (int n = 0; n < Comp<T>::n; ++n) { m = std::max(m, fabs(Comp<T>::get(v, n))); } return m; }
inline std::string ds(const D3 &d) { std::ostringstream o; o.precision(9); o << "(" << d.v[0] << "," << d.v[1] << "," << d.v[2] << ")"; return o.str(); }

//! Points in and around the window, biased to centres, faces and block edges
static V3d genPoint(Src &s, const Box3i &b, int out = 3)
{
  V3d p;
  for (int a = 0; a < 3; ++a) {
    switch (s.below(5)) {
    case 0: p[a] = s.range(b.min[a], b.max[a]) + 0.5; break;                 // centre
    case 1: p[a] = s.range(b.min[a], b.max[a] + 1); break;                   // face
    case 2: p[a] = s.real(b.min[a] - out, b.max[a] + 1 + out); break;        // in or out
    default: p[a] = s.real(b.min[a], b.max[a] + 1); break;
    }
  }
  return p;
}

template <class T> void linearCase(Src &s, Ctx &c)
{
  int cls = (int)s.below(2), order = (int)s.range(1, 4);
  Def d = genDef(s, cls ? 18 : 9, 12);
  Grid<T> g; genGrid(s, d.dw, g);
  double scale = gridScale(g);
  T bg = s.flip() ? mkConst<T>(0) : g.d[0];
  typename DenseField<T>::Ptr df(new DenseField<T>); df->setSize(d.ext, d.dw); df->clear(mkConst<T>(0)); toField(g, *df);
  typename SparseField<T>::Ptr sf(new SparseField<T>); sf->setBlockOrder(order); sf->setSize(d.ext, d.dw); sf->clear(bg); toFieldSparse(g, *sf, bg);
  if (s.flip()) { sf->releaseBlocks(Sparse::CheckAllEqual<T>()); }
  c << (cls ? "wide " : "") << bs(d.ext) << bs(d.dw) << " block order " << order;
  LinearFieldInterp<T> li; typename DenseField<T>::LinearInterp dl; typename SparseField<T>::LinearInterp sl;
  for (int q = 0; q < 12; ++q) {
    V3d p = genPoint(s, d.dw);
    D3 r = refLinear(g, p);
    T v = li.sample(*df, p); PBT_CHECK(nearVal(v, r, scale), "linear-generic", "generic linear sample of a dense field at " << vs(p) << " is " << vs(v) << " expected " << ds(r));
    v = li.sample(*sf, p); PBT_CHECK(nearVal(v, r, scale), "linear-generic", "generic linear sample of a sparse field at " << vs(p) << " is " << vs(v) << " expected " << ds(r));
    v = dl.sample(*df, p); PBT_CHECK(nearVal(v, r, scale), "linear-dense", "dense linear sample at " << vs(p) << " is " << vs(v) << " expected " << ds(r));
    v = sl.sample(*sf, p); PBT_CHECK(nearVal(v, r, scale), "linear-sparse", "sparse linear sample at " << vs(p) << " is " << vs(v) << " expected " << ds(r) << " (block order " << order << ")");
  }
  // exact at voxel centres
  for (int q = 0; q < 4; ++q) {
    V3i x = genVoxel(s, d.dw); V3d p = V3d(x) + V3d(0.5); T ex = g.at(x.x, x.y, x.z);
    T v = dl.sample(*df, p); PBT_CHECK(same(v, ex), "linear-centre", "dense sample at the centre of voxel " << vs(x) << " is " << vs(v) << ", the voxel holds " << vs(ex));
    v = sl.sample(*sf, p); PBT_CHECK(same(v, ex), "linear-centre", "sparse sample at the centre of voxel " << vs(x) << " is " << vs(v) << ", the voxel holds " << vs(ex));
    v = li.sample(*sf, p); PBT_CHECK(same(v, ex), "linear-centre", "generic sample at the centre of voxel " << vs(x) << " is " << vs(v) << ", the voxel holds " << vs(ex));
  }
  // world space
  MapSpec ms = genMapSpec(s); FieldMapping::Ptr m = mkMap(ms);
  df->setMapping(m); sf->setMapping(m);
  for (int q = 0; q < 2; ++q) {
    V3d p = genPoint(s, d.dw, 1), w, v2;
    df->mapping()->voxelToWorld(p, w); df->mapping()->worldToVoxel(w, v2);
    if (!((v2 - p).length() <= 1e-6)) { continue; }   // behind a camera
    D3 r = refLinear(g, v2);
    T v = wsSample<T>(df, li, w); PBT_CHECK(nearVal(v, r, scale), "linear-world", "world space sample at " << vs(w) << " is " << vs(v) << " expected " << ds(r));
    V3d l; df->mapping()->worldToLocal(w, l);
    bool in = true, edge = false;
    for (int a = 0; a < 3; ++a) { if (l[a] < 0 || l[a] > 1) { in = false; } if (fabs(l[a]) < 1e-6 || fabs(l[a] - 1) < 1e-6) { edge = true; } }
    if (!edge) { PBT_CHECK(isPointInField(df, w) == in, "point-in-field", "isPointInField at local " << vs(l)); }
  }
  c.nontrivial = vol(d.dw) > 1;
  if (d.dw.min.x < 0 || d.dw.min.y < 0 || d.dw.min.z < 0) { c.label("negative-origin"); }
}
PBT_TEST(linear, 30000, 400000, "fields of six voxel types, dense and sparse with block order 1-4 and partly unallocated, points inside, outside, on centres and faces: every linear interpolator against a trilinear reference in double, exact at voxel centres, world space lookups; non-trivial = more than one voxel")
{
  int t = (int)s.below(6); c << typeName(t) << " ";
  withAny(t, [&](auto v) { linearCase<decltype(v)>(s, c); });
}

PBT_TEST(legal_coord, 10000, 100000, "isLegalVoxelCoord against comparisons; non-trivial = always")
{
  Box3i b = genBox(s, 6); Box3d bd(V3d(b.min), V3d(b.max + V3i(1)));
  for (int q = 0; q < 8; ++q) {
    V3d p = genPoint(s, b, 2); bool in = true;
    for (int a = 0; a < 3; ++a) { in = in && p[a] > bd.min[a] && p[a] < bd.max[a]; }
    PBT_CHECK(isLegalVoxelCoord(p, bd) == in, "legal-coord", "isLegalVoxelCoord" << vs(p) << " in " << bs(b));
  }
  c << bs(b); c.nontrivial = true;
}

//! Empty fields are constant under every interpolator
PBT_TEST(linear_empty, 5000, 50000, "empty (constant) fields sampled anywhere give their constant; non-trivial = constant is not zero")
{
  EmptyField<float>::Ptr f(new EmptyField<float>); Def d = genDef(s, 8); f->setSize(d.ext, d.dw);
  float k = mkVal<float>(s.below(1000)); f->clear(k); c << bs(d.dw) << " " << k;
  LinearFieldInterp<float> li;
  for (int q = 0; q < 4; ++q) { V3d p = genPoint(s, d.dw); float v = li.sample(*f, p); PBT_CHECK(fabs(v - k) <= 1e-5 * (1 + fabs(k)), "linear-empty", "sample at " << vs(p) << " of a field that is " << k << " everywhere is " << v); }
  c.nontrivial = k != 0;
}

//! A procedural field is evaluated at the point asked for
struct Plane : public ProceduralField<float>
{
  V3d n; double d;
  virtual float lsSample(const V3d &p) const { return (float)(p.dot(n) + d); }
  virtual float value(int i, int j, int k) const { V3d l; this->mapping()->voxelToLocal(V3d(i + 0.5, j + 0.5, k + 0.5), l); return lsSample(l); }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(0); }
  void set(const Box3i &e, const Box3i &w) { m_extents = e; m_dataWindow = w; m_mapping->setExtents(e); }
  virtual bool checkRTTI(const char *t) { return matchRTTI(t); }
  typedef ProceduralField<float> base;
};
PBT_TEST(procedural, 15000, 150000, "a procedural field (linear in local space) over generated extents and windows, looked up at voxel-space points: equals the function at the local-space point; non-trivial = extents off the origin or window not the extents")
{
  boost::intrusive_ptr<Plane> f(new Plane); Def d = genDef(s, 10); f->set(d.ext, d.dw);
  f->n = V3d(s.around0(-8, 8), s.around0(-8, 8), s.around0(-8, 8)); f->d = (double)s.around0(-4, 4);
  c << bs(d.ext) << bs(d.dw);
  ProceduralField<float>::LinearInterp li; ProceduralField<float>::CubicInterp ci;
  for (int q = 0; q < 4; ++q) {
    V3d p = genPoint(s, d.dw), l; V3i r = dims(d.ext);
    for (int a = 0; a < 3; ++a) { l[a] = (p[a] - d.ext.min[a]) / r[a]; }
    float ex = f->lsSample(l), v = li.sample(*f, p), v2 = ci.sample(*f, p);
    PBT_CHECK(fabs(v - ex) <= 1e-4 * (1 + fabs(ex)), "procedural-lookup", "lookup of a procedural field at voxel-space " << vs(p) << " is " << v << ", the function there is " << ex);
    PBT_CHECK(v == v2, "procedural-lookup", "linear and cubic lookups of a procedural field differ");
  }
  c.nontrivial = d.ext.min != V3i(0) || !(d.ext == d.dw);
}
//! Lookups of values times a power of two
template <class T> void scaledCase(Src &s, Ctx &c)
{
  Def d = genDef(s, 8, 12); int k = genPow2(s), order = (int)s.range(1, 4);
  Grid<T> g; genGrid(s, d.dw, g); Grid<T> h = timesPow2(g, k); double mag = largest(g);
  DenseField<T> df[2]; SparseField<T> sf[2];
  for (int q = 0; q < 2; ++q) {
    df[q].setSize(d.ext, d.dw); df[q].clear(mkConst<T>(0)); toField(q ? h : g, df[q]);
    sf[q].setBlockOrder(order); sf[q].setSize(d.ext, d.dw); sf[q].clear(mkConst<T>(0)); toFieldSparse(q ? h : g, sf[q], mkConst<T>(0));
  }
  c << bs(d.dw) << " times 2^" << k;
  LinearFieldInterp<T> gi; typename DenseField<T>::LinearInterp di; typename SparseField<T>::LinearInterp si;
  for (int q = 0; q < 8; ++q) {
    V3d p = onGrid64(genPoint(s, d.dw)); T a, b;
    a = gi.sample(df[0], p); b = gi.sample(df[1], p); PBT_CHECK(isScaled(a, b, k, mag), "linear-scaled", "generic lookup at " << vs(p) << " is " << vs(a) << ", of the same voxels times 2^" << k << " it is " << vs(b));
    a = di.sample(df[0], p); b = di.sample(df[1], p); PBT_CHECK(isScaled(a, b, k, mag), "linear-scaled", "dense lookup at " << vs(p) << " is " << vs(a) << ", of the same voxels times 2^" << k << " it is " << vs(b));
    a = si.sample(sf[0], p); b = si.sample(sf[1], p); PBT_CHECK(isScaled(a, b, k, mag), "linear-scaled", "sparse lookup at " << vs(p) << " is " << vs(a) << ", of the same voxels times 2^" << k << " it is " << vs(b));
  }
  c.nontrivial = mag > 0 && vol(d.dw) > 1;
}
PBT_TEST(scaled, 4000, 50000, "voxels times a power of two from 2^-30 to 2^30: every linear lookup is the lookup of the original voxels times that power; non-trivial = several voxels, not all zero")
{
  int t = (int)s.below(4); c << wideName(t);
  withWide(t, [&](auto v) { scaledCase<decltype(v)>(s, c); });
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 20}; }; } } g_init;
