#pragma once
// C24: a group of fields answers every query as its fields together do.
#include "io.h"
#include "Field3D/FieldGroup.h"
#include "Field3D/InitIO.h"
#include "Field3D/Log.h"
#include <unistd.h>
using namespace fx;

struct Remap : public ValueRemapOp
{
  virtual float remap(const float v) const { return 2.0f * v + 3.0f; }
  virtual V3f remap(const V3f &v) const { return 2.0f * v + V3f(3.0f); }
};
template <int D> struct GT;
template <> struct GT<1> { typedef ScalarFieldGroup G; static int type(Src &s) { return (int)s.below(3); } static const int foreign = 4; };
template <> struct GT<3> { typedef VectorFieldGroup G; static int type(Src &s) { return 3 + (int)s.below(3); } static const int foreign = 0; };

//! What one field contributes
struct Member
{
  FieldRes::Ptr f; M44d os; bool hasOs = false, remap = false, mip = false, plain = false; double scale = 1;
  V3d lo, hi;          // range of the voxels of the finest level
  std::function<V3d(const V3d &vs, float spot)> sample;
  std::function<V3d(int, int, int)> voxel;
  V3d toVs(const V3d &ws) const { V3d o = ws, v; if (hasOs) { os.inverse().multVecMatrix(ws, o); } f->mapping()->worldToVoxel(o, v); return v; }
  V3d toWs(const V3d &v) const { V3d o, w; f->mapping()->voxelToWorld(v, o); w = o; if (hasOs) { os.multVecMatrix(o, w); } return w; }
  //! 1 inside, 0 outside, -1 on the border or behind the camera
  int where(const V3d &v) const
  {
    Box3i b = f->dataWindow(); bool in = true;
    if (!front(v)) { return -1; }
    for (int a = 0; a < 3; ++a) {
      double lo = b.min[a], hi = b.max[a] + 1, e = 1e-4 + 1e-6 * (fabs(lo) + fabs(hi));
      if (!(fabs(v[a]) < 1e9)) { return -1; }
      if (fabs(v[a] - lo) < e || fabs(v[a] - hi) < e) { return -1; }
      in = in && v[a] > lo && v[a] < hi;
    }
    return in;
  }
  bool front(const V3d &v) const { return v.x == v.x && v.y == v.y && v.z == v.z; }
  //! Points in front of the camera only: elsewhere a frustum has no voxel coordinates
  bool usable(const V3d &ws) const
  {
    FrustumFieldMapping::Ptr m = FIELD_DYNAMIC_CAST<FrustumFieldMapping>(f->mapping());
    if (!m) { return true; }
    V3d o = ws; if (hasOs) { os.inverse().multVecMatrix(ws, o); }
    M44d i = m->screenToWorldSamples()[0].second.inverse();
    return clipW(i, o) > 1e-3;
  }
  double clipW(const M44d &m, const V3d &p) const
  {
    // the sign of the divisor, relative to that of a point inside
    auto w = [&](const V3d &q) { return q.x * m[0][3] + q.y * m[1][3] + q.z * m[2][3] + m[3][3]; };
    V3d in; Box3i e = f->extents(); f->mapping()->voxelToWorld(V3d(e.min + e.max + V3i(1)) * 0.5, in);
    return w(p) / w(in);
  }
};
template <class T> V3d toV3(const T &v) { V3d r(0); for (int i = 0; i < Comp<T>::n; ++i) { r[i] = Comp<T>::get(v, i); } return r; }

//! World space of the current case is in units of 2^k
static int g_unit = 0;
struct Units { Units(Src &s) { g_unit = s.chance(25) ? (int)s.range(6, 22) * (s.flip() ? -1 : 1) : 0; } ~Units() { g_unit = 0; } };
static double unit() { return std::ldexp(1.0, g_unit); }
static M44d genOs(Src &s)
{
  M44d S, R, T; double k = s.real(0.25, 4) * (s.chance(25) ? -1 : 1); S.setScale(V3d(k));
  R.setEulerAngles(V3d(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3))); T.setTranslation(V3d(s.real(-5, 5), s.real(-5, 5), s.real(-5, 5)) * unit());
  return S * R * T;
}
static FieldMapping::Ptr genMap(Src &s)
{
  switch (s.weighted({2, 5, 3})) {
  case 0: return FieldMapping::Ptr(new NullFieldMapping);
  case 1: { MatrixSpec m = genMatrixSpec(s, 1); worldTimesPow2(m, g_unit); return mkMatrix(m); }
  default: { FrustumSpec f = genFrustumSpec(s, 1); worldTimesPow2(f, g_unit); return mkFrustum(f); }
  }
}
template <class F> void range(const F &f, Member &m)
{
  typedef typename F::value_type T; m.lo = V3d(1e300); m.hi = V3d(-1e300);
  forVox(f.dataWindow(), [&](int i, int j, int k) { V3d v = toV3<T>(f.value(i, j, k)); for (int a = 0; a < 3; ++a) { m.lo[a] = std::min(m.lo[a], v[a]); m.hi[a] = std::max(m.hi[a], v[a]); } });
}
//! kind: 0 any, 1 such that a min/max representation can be made
template <class F> typename F::Ptr base(Src &s, bool regular, int maxRes)
{
  typedef typename F::value_type T;
  Def d; if (regular) { V3i r(0); for (int a = 0; a < 3; ++a) { r[a] = (int)s.range(2, maxRes); } d.ext = d.dw = zbox(r); } else { d = genDef(s, maxRes); }
  typename F::Ptr f(new F); if (SparseField<T> *sp = dynamic_cast<SparseField<T> *>(f.get())) { sp->setBlockOrder((int)s.range(1, 3)); }
  f->setSize(d.ext, d.dw); f->clear(mkConst<T>(0)); Grid<T> g; genGrid(s, d.dw, g); toFieldSparse(g, *f, mkConst<T>(0));
  return f;
}
template <class F> void plainMember(Src &s, bool regular, Member &m)
{
  typedef typename F::value_type T;
  typename F::Ptr f = base<F>(s, regular, 9); f->setMapping(genMap(s)); m.f = f; m.plain = true; range(*f, m);
  m.sample = [f](const V3d &v, float) { typename F::LinearInterp in; return toV3<T>(in.sample(*f, v)); };
  m.voxel = [f](int i, int j, int k) { return toV3<T>(f->value(i, j, k)); };
}
template <class F, class M> void mipMember(Src &s, Member &m)
{
  typedef typename F::value_type T;
  typename F::Ptr f = base<F>(s, true, 11); f->setMapping(genMap(s));
  typename MIPField<F>::Ptr mp = makeMIP<M, BoxFilter>(*f, (int)s.range(1, 4), 1);
  PBT_CHECK(mp, "group-setup", "no pyramid was made");
  m.f = mp; m.mip = true; range(*f, m);
  m.sample = [mp](const V3d &v, float spot) { typename MIPField<F>::LinearInterp in(*mp); return toV3<T>(in.sample(v, spot)); };
  m.voxel = [mp](int i, int j, int k) { return toV3<T>(mp->fastMipValue(0, i, j, k)); };
}
template <int D> Member genMember(Src &s, bool regular = false)
{
  Member m;
  withAny(GT<D>::type(s), [&](auto t) { typedef decltype(t) T;
    switch (s.below(4)) {
    case 0: plainMember<DenseField<T> >(s, regular, m); break;
    case 1: plainMember<SparseField<T> >(s, regular, m); break;
    case 2: mipMember<DenseField<T>, MIPDenseField<T> >(s, m); break;
    default: mipMember<SparseField<T>, MIPSparseField<T> >(s, m);
    }
  });
  return m;
}
static FieldRes::Ptr foreignField(Src &s, int type)
{
  FieldRes::Ptr r;
  withAny(type, [&](auto t) { typedef decltype(t) T; typename DenseField<T>::Ptr f = base<DenseField<T> >(s, true, 3); f->setMapping(FieldMapping::Ptr(new NullFieldMapping)); r = f; });
  return r;
}

template <int D> struct Model
{
  std::vector<Member> m; FieldRes::Vec all;
  bool usable(const V3d &p) const { for (auto &x : m) { if (!x.usable(p) || x.where(x.toVs(p)) < 0) { return false; } } return true; }
};
//! A point inside one of the fields, or near it
template <int D> V3d genPoint(Src &s, const Model<D> &g)
{
  if (g.m.empty() || s.chance(5)) { return V3d(V3f(V3d(s.real(-5, 5), s.real(-5, 5), s.real(-5, 5)) * unit())); }
  const Member &m = g.m[s.below(g.m.size())]; Box3i b = m.f->dataWindow(); V3d v;
  bool out = s.chance(15);
  for (int a = 0; a < 3; ++a) { double pad = out ? 1.5 : 0; v[a] = s.real(b.min[a] - pad, b.max[a] + 1 + pad); }
  V3d w = m.toWs(v);
  return V3d(V3f(w));
}
template <int D> void add(Src &s, typename GT<D>::G &grp, Model<D> &md, int n, bool regular, bool &remap, bool &os, M44d &osm)
{
  if (s.chance(40)) { os = s.chance(75); osm = os ? genOs(s) : M44d(); grp.setOsToWs(osm); }
  if (s.chance(30)) { remap = s.flip(); grp.setValueRemapOp(remap ? ValueRemapOp::Ptr(new Remap) : ValueRemapOp::Ptr()); }
  if (s.chance(20)) { grp.setWsBoundsOptimization(s.chance(70)); }
  FieldRes::Vec v;
  for (int i = 0; i < n; ++i) {
    if (s.chance(10)) { v.push_back(foreignField(s, GT<D>::foreign)); continue; }
    Member x = genMember<D>(s, regular); x.hasOs = os; x.os = osm; x.remap = remap;
    if (os) { x.scale = pow(fabs(osm.determinant()), 1 / 3.0); }
    v.push_back(x.f); md.m.push_back(x);
  }
  if (v.size() == 1 && s.flip()) { grp.setup(v[0]); } else { grp.setup(v); }
  md.all.insert(md.all.end(), v.begin(), v.end());
}

template <int D> void checkSamples(Src &s, Ctx &c, typename GT<D>::G &grp, const Model<D> &md, int n)
{
  size_t mips = 0; long long mem = 0; for (auto &m : md.m) { mips += m.mip; mem += m.f->memSize(); }
  PBT_CHECK(grp.size() == md.m.size() && grp.sizeMIP() == mips, "group-size", "size() is " << grp.size() << " and sizeMIP() " << grp.sizeMIP() << " with " << md.m.size() << " fields, " << mips << " of them MIP fields");
  PBT_CHECK(grp.memSize() == mem, "group-memsize", "memSize() is " << grp.memSize() << ", the fields use " << mem);
  PBT_CHECK(grp.fields() == md.all, "group-fields", "fields() holds " << grp.fields().size() << " fields, " << md.all.size() << " were added");
  std::vector<float> pts, spots; std::vector<V3d> eAll, ePlain, eMip; std::vector<double> tols;
  for (int q = 0; q < n; ++q) {
    V3d p = genPoint(s, md); float spot = s.chance(20) ? 0.0f : (float)(0.05 * pow(2.0, s.real(0, 7)) * unit());
    if (!md.usable(p)) { continue; }
    V3d plain(0), mip(0); size_t hits = 0; double tol = 1e-3; std::ostringstream w; bool skip = false;
    for (auto &m : md.m) {
      V3d v = m.toVs(p); if (m.where(v) != 1) { continue; }
      ++hits; V3d x = m.sample(v, (float)(spot / m.scale));
      // what cannot be compared: a spot on the edge of a change of level counts the same
      if (!(x.length() < 1e30)) { skip = true; }
      if (m.remap) { x = 2.0 * x + V3d(3.0); if (D == 1) { x.y = x.z = 0; } }
      (m.mip ? mip : plain) += x; tol += 2e-3 * (std::max(m.lo.length(), m.hi.length()) + 3);
    }
    if (skip) { continue; }
    c.nontrivial |= hits > 1;
    V3d all = plain + mip; float prior = (float)s.around0(-3, 3);
    auto cmp = [&](const char *sig, const char *what, const float *r, const V3d &e, double add) {
      for (int a = 0; a < D; ++a) { PBT_CHECK(fabs(r[a] - (e[a] + add)) <= tol, sig, what << " at " << vs(p) << " spot " << spot << " component " << a << " gives " << r[a] << ", the " << hits << " fields there give " << e[a] + add); }
    };
    typename GT<D>::G::CompositeOp op = GT<D>::G::Add;
    float r[3] = {prior, prior, prior}; grp.sample(p, spot, 0.0f, r, op); cmp("group-add", "sample() adding", r, all, prior);
    float r2[3] = {0, 0, 0}; grp.sample(p, spot, 0.0f, r2, GT<D>::G::Avg); cmp("group-avg", "sample() averaging", r2, hits > 1 ? all / (double)hits : all, 0);
    float r3[3] = {prior, prior, prior}; grp.sample(p, r3, false); cmp("group-plain", "sample() without MIP fields", r3, plain, prior);
    float r4[3] = {prior, prior, prior}; grp.sampleMIP(p, spot, r4, false); cmp("group-mip", "sampleMIP()", r4, mip, prior);
    PBT_CHECK(grp.intersects(p) == (hits > 0), "group-intersects", "intersects" << vs(p) << " is " << grp.intersects(p) << " where " << hits << " fields are");
    if (hits) {
      Box3d b = grp.wsBounds(); bool wide = false;
      for (auto &m : md.m) { V3d v = m.toVs(p); Box3i e = m.f->extents(); bool in = m.where(v) == 1; for (int a = 0; a < 3; ++a) { in = in && v[a] > e.min[a] && v[a] < e.max[a] + 1; } wide |= in; }
      double e = 1e-4 * (unit() + p.length()); b.min -= V3d(e); b.max += V3d(e);
      PBT_CHECK(!wide || b.intersects(p), "group-bounds", "wsBounds() is [" << vs(b.min) << "," << vs(b.max) << "], a field has a value at " << vs(p));
    }
    for (int a = 0; a < 3; ++a) { pts.push_back((float)p[a]); } spots.push_back(spot);
    ePlain.push_back(plain); eMip.push_back(mip); tols.push_back(tol);
  }
#ifndef NO_MULTIPLE
  size_t np = spots.size();
  if (np) {
    std::vector<float> r(np * D, 1.0f), rm(np * D, 1.0f);
    grp.sampleMultiple(np, pts.data(), r.data()); grp.sampleMIPMultiple(np, pts.data(), spots.data(), rm.data());
    for (size_t q = 0; q < np; ++q) { for (int a = 0; a < D; ++a) {
      PBT_CHECK(fabs(r[q * D + a] - (1 + ePlain[q][a])) <= tols[q], "group-multiple", "sampleMultiple() gives " << r[q * D + a] << " for point " << q << " of " << np << ", expected " << 1 + ePlain[q][a]);
      PBT_CHECK(fabs(rm[q * D + a] - (1 + eMip[q][a])) <= tols[q], "group-mipmultiple", "sampleMIPMultiple() gives " << rm[q * D + a] << " for point " << q << " of " << np << ", expected " << 1 + eMip[q][a]);
    } }
  }
#endif
}
template <int D> void sampleCase(Src &s, Ctx &c)
{
  Units u(s); if (g_unit) { c << "world in units of 2^" << g_unit << " "; }
  typename GT<D>::G grp; Model<D> md; bool remap = false, os = false; M44d osm;
  int n = (int)s.range(1, 3);
  for (int q = 0; q < n; ++q) {
    add<D>(s, grp, md, (int)s.range(1, 3), false, remap, os, osm);
    if (s.chance(10)) { grp.setWsBoundsOptimization(true); }
    if (s.chance(30)) { checkSamples<D>(s, c, grp, md, 6); }
  }
  for (auto &m : md.m) { c << m.f->className() << (m.hasOs ? "+os" : "") << (m.remap ? "+remap" : "") << " " << m.f->mapping()->className() << "; "; }
  if (s.chance(30)) { typename GT<D>::G copy(grp); { typename GT<D>::G gone; std::swap(gone, grp); } checkSamples<D>(s, c, copy, md, 10); }
  else { checkSamples<D>(s, c, grp, md, 12); }
}

//! Prefiltered voxels split the box between them: centres on their edges belong to either
static bool strictly(const Box3d &b, const V3d &p)
{
  for (int a = 0; a < 3; ++a) { double e = 1e-4 * (unit() + fabs(p[a])); if (!(p[a] > b.min[a] + e && p[a] < b.max[a] - e)) { return false; } }
  return true;
}
template <int D> void checkRange(Src &s, const typename GT<D>::G &grp, const Model<D> &md, bool exact)
{
  V3d glo(1e300), ghi(-1e300);
  for (auto &m : md.m) { for (int a = 0; a < D; ++a) { glo[a] = std::min(glo[a], m.lo[a]); ghi[a] = std::max(ghi[a], m.hi[a]); } }
  for (int q = 0; q < 4; ++q) {
    bool inf = q == 0; Box3d b; if (inf) { b.makeInfinite(); } else { b.extendBy(genPoint(s, md)); if (!s.chance(20)) { b.extendBy(genPoint(s, md)); } }
    if (!inf && s.flip()) { b.min -= V3d(0.01 * unit()); b.max += V3d(0.01 * unit()); }
    float lo[3] = {3e38f, 3e38f, 3e38f}, hi[3] = {-3e38f, -3e38f, -3e38f};
    grp.getMinMax(b, lo, hi);
    std::ostringstream bx; if (inf) { bx << "the infinite box"; } else { bx << "[" << vs(b.min) << "," << vs(b.max) << "]"; }
    V3d alo(3e38), ahi(-3e38);   // of all voxels near the box
    bool behind = false;
    for (auto &m : md.m) {
      Box3d vb; bool ok = true;
      // a box in object space around the box, then one in voxel space around that
      if (!inf) {
        auto corner = [](const Box3d &q, int k) { return V3d(k & 1 ? q.max.x : q.min.x, k & 2 ? q.max.y : q.min.y, k & 4 ? q.max.z : q.min.z); };
        Box3d ob; for (int k = 0; k < 8; ++k) { V3d o = corner(b, k), p = o; if (m.hasOs) { m.os.inverse().multVecMatrix(p, o); } ob.extendBy(o); }
        for (int k = 0; k < 8; ++k) { V3d p = corner(ob, k), w = p, v; if (m.hasOs) { m.os.multVecMatrix(p, w); } ok = ok && m.usable(w); m.f->mapping()->worldToVoxel(p, v); ok = ok && m.front(v); vb.extendBy(v); }
      }
      if (!ok) { behind = true; }
      forVox(m.f->dataWindow(), [&](int i, int j, int k) {
        V3d v = m.voxel(i, j, k); V3d ctr(i + 0.5, j + 0.5, k + 0.5); V3d p = m.toWs(ctr);
        bool in = inf || (exact ? b.intersects(p) : strictly(b, p)), near = inf || !ok;
        if (!near) { near = true; for (int a = 0; a < 3; ++a) { near = near && ctr[a] > vb.min[a] - 2.6 && ctr[a] < vb.max[a] + 2.6; } }
        for (int a = 0; a < D; ++a) {
          double e = 1e-5 * (1 + fabs(v[a]));
          if (near) { alo[a] = std::min(alo[a], v[a] - e); ahi[a] = std::max(ahi[a], v[a] + e); }
          if (in && ok) { PBT_CHECK(lo[a] <= v[a] + e && hi[a] >= v[a] - e, "group-range", "getMinMax of " << bx.str() << " is [" << lo[a] << "," << hi[a] << "], voxel (" << i << "," << j << "," << k << ") of a " << m.f->className() << " at " << vs(p) << " has " << v[a]); }
        }
      });
    }
    for (int a = 0; a < D; ++a) {
      double e = 1e-5 * (1 + fabs(glo[a]) + fabs(ghi[a]));
      if (lo[a] < 3e38f) { PBT_CHECK(lo[a] >= glo[a] - e, "group-range-loose", "the minimum over " << bx.str() << " is " << lo[a] << ", no voxel is below " << glo[a]); }
      if (hi[a] > -3e38f) { PBT_CHECK(hi[a] <= ghi[a] + e, "group-range-loose", "the maximum over " << bx.str() << " is " << hi[a] << ", no voxel is above " << ghi[a]); }
      if (exact && inf && !md.m.empty()) { PBT_CHECK(fabs(lo[a] - glo[a]) <= e && fabs(hi[a] - ghi[a]) <= e, "group-range-exact", "the range over everything is [" << lo[a] << "," << hi[a] << "], should be [" << glo[a] << "," << ghi[a] << "]"); }
      if (exact && !inf && !behind) { PBT_CHECK(lo[a] >= alo[a] - e && hi[a] <= ahi[a] + e, "group-range-loose", "the range over " << bx.str() << " is [" << lo[a] << "," << hi[a] << "], the voxels near it have [" << alo[a] << "," << ahi[a] << "]"); }
    }
    // what is there already counts
    float lo2[3] = {-5000, -5000, -5000}, hi2[3] = {5000, 5000, 5000}; grp.getMinMax(b, lo2, hi2);
    for (int a = 0; a < D; ++a) { PBT_CHECK(lo2[a] == -5000 && hi2[a] == 5000, "group-range-prior", "getMinMax narrows the range it is given"); }
  }
}
template <int D> void rangeCase(Src &s, Ctx &c)
{
  Units u(s); if (g_unit) { c << "world in units of 2^" << g_unit << " "; }
  typename GT<D>::G grp; Model<D> md; bool remap = false, os = false; M44d osm; bool pre = false;
  int n = (int)s.range(1, 3);
  for (int q = 0; q < n; ++q) {
    add<D>(s, grp, md, (int)s.range(1, 2), s.chance(60), remap, os, osm); pre = false;
    if (s.chance(40)) { grp.makeMinMax((float)s.real(0.2, 1)); pre = true; }
  }
  for (auto &m : md.m) { c << m.f->className() << bs(m.f->extents()) << bs(m.f->dataWindow()) << (m.hasOs ? "+os" : "") << " " << m.f->mapping()->className() << "; "; }
  c << (grp.hasPrefiltMinMax() ? "prefiltered" : "direct"); c.label(grp.hasPrefiltMinMax() ? "prefiltered" : "direct"); (void)pre;
  c.nontrivial = md.m.size() > 1;
  checkRange<D>(s, grp, md, !grp.hasPrefiltMinMax());
}
