// C11: construction of MIP pyramids and min/max pyramids.
#include "common.h"
#include "scaled.h"
#include "Field3D/MIPField.h"
#include "Field3D/MIPInterp.h"
#include "Field3D/MIPUtil.h"
#include "Field3D/MinMaxUtil.h"
using namespace fx;

template <class T> struct MaxAbs { double m = 0; void add(const T &v) { for (int i = 0; i < Comp<T>::n; ++i) { m = std::max(m, fabs(Comp<T>::get(v, i))); } } };

struct VGrid { V3i res; std::vector<V3d> d; void reset(const V3i &r) { res = r; d.assign((size_t)r.x * r.y * r.z, V3d(0)); }
  V3d &at(int i, int j, int k) { return d[((size_t)k * res.y + j) * res.x + i]; } };
template <class Filter> struct Kind { static const int k = 0; };
template <> struct Kind<MinFilter> { static const int k = 1; };
template <> struct Kind<MaxFilter> { static const int k = 2; };

//! Voxel t of the next level covers voxels 2t-add and 2t+1-add of this one
template <class Filter> void halve(VGrid &in, VGrid &out, const V3i &res, int dim, int add)
{
  Filter f; out.reset(res);
  for (int k = 0; k < res.z; ++k) for (int j = 0; j < res.y; ++j) for (int i = 0; i < res.x; ++i) {
    V3i t(i, j, k); double centre = 2.0 * t[dim] + 1.0 - add, w = 0; V3d acc(0); bool any = false;
    for (int q = 0; q < in.res[dim]; ++q) {
      double dist = fabs(q + 0.5 - centre) * 0.5;
      if (dist > f.support()) { continue; }
      double e = f.eval((float)dist); if (e == 0) { continue; }
      V3i x = t; x[dim] = q; V3d v = in.at(x.x, x.y, x.z);
      w += e;
      for (int a = 0; a < 3; ++a) {
        if (Kind<Filter>::k == 0) { acc[a] += v[a] * e; } else if (!any) { acc[a] = v[a]; }
        else { acc[a] = Kind<Filter>::k == 1 ? std::min(acc[a], v[a]) : std::max(acc[a], v[a]); }
      }
      any = true;
    }
    out.at(i, j, k) = !any ? V3d(0) : Kind<Filter>::k == 0 ? (w > 0 ? acc / w : V3d(0)) : acc;
  }
}
template <class T> void toV(const Field<T> &f, VGrid &g)
{
  g.reset(dims(f.dataWindow())); V3i o = f.dataWindow().min;
  forVox(zbox(g.res), [&](int i, int j, int k) { T v = f.value(i + o.x, j + o.y, k + o.z); for (int a = 0; a < Comp<T>::n; ++a) { g.at(i, j, k)[a] = Comp<T>::get(v, a); } });
}
static int floorDiv2(int a) { return a >= 0 ? a / 2 : -((1 - a) / 2); }

template <class Field_T, class MIP_T, class Filter> typename MIP_T::Ptr build(const Field_T &f, int minSize, const V3i &off, bool useOff, int threads)
{ return useOff ? makeMIP<MIP_T, Filter>(f, minSize, off, threads) : makeMIP<MIP_T, Filter>(f, minSize, threads); }

template <class T, class MIP_T, class Filter> void checkMip(Src &s, Ctx &c, const Field<T> &base, MIP_T &mip, int minSize, const V3i &offset, const char *what)
{
  V3i res = dims(base.dataWindow()), off = offset; size_t nl = 1;
  PBT_CHECK(mip.extents() == base.extents() && mip.dataWindow() == base.dataWindow(), "mip-size", what << ": " << bs(mip.extents()) << bs(mip.dataWindow()));
  PBT_CHECK(mip.name == base.name && mip.attribute == base.attribute, "mip-meta", what << " is called " << mip.name << ":" << mip.attribute);
  PBT_CHECK(mip.metadata().intMetadata("an_int", -1) == 17, "mip-meta", what << ": metadata lost");
  PBT_CHECK(mip.mipOffset() == offset, "mip-offset", what << " has offset " << vs(mip.mipOffset()) << ", built with " << vs(offset));
  VGrid prev; toV<T>(base, prev);
  { VGrid l0; toV<T>(*mip.mipLevel(0), l0); PBT_CHECK(l0.d == prev.d, "mip-level0", what << ": level 0 differs from the base field"); }
  double mx = 1; for (auto &v : prev.d) { for (int a = 0; a < 3; ++a) { mx = std::max(mx, fabs(v[a])); } }
  double eps = (sizeof(typename Comp<T>::type) == 2 ? 4e-3 : 1e-5) * mx;
  int mult = 1;
  while ((res.x > minSize || res.y > minSize || res.z > minSize) && res.x > 2 && res.y > 2 && res.z > 2) {
    PBT_CHECK(nl < mip.numLevels(), "mip-levels", what << " stops at level " << nl - 1 << " with resolution " << vs(res) << " although the minimum size is " << minSize);
    V3i add, nres; for (int a = 0; a < 3; ++a) { add[a] = off[a] & 1; nres[a] = (res[a] + add[a] + 1) / 2; }
    mult *= 2;
    V3i got = mip.mipResolution(nl);
    // every voxel of the base is inside the level
    for (int a = 0; a < 3; ++a) {
      int lvlOff = (offset[a] >> nl) << nl;
      int last = (dims(base.dataWindow())[a] - 1 + offset[a] - lvlOff) / mult;
      PBT_CHECK(last < got[a], "mip-coverage", what << " level " << nl << " axis " << a << " has " << got[a] << " voxels; the last base voxel falls in voxel " << last << " (offset " << vs(offset) << ")");
      PBT_CHECK(got[a] <= nres[a] + 1, "mip-resolution", what << " level " << nl << " has resolution " << vs(got) << ", about half of " << vs(res) << " expected");
    }
    if (offset == V3i(0)) { PBT_CHECK(got == nres, "mip-resolution", what << " level " << nl << " has resolution " << vs(got) << " expected " << vs(nres)); }
    auto lvl = mip.mipLevel(nl);
    PBT_CHECK(lvl->extents() == zbox(got) && lvl->dataWindow() == zbox(got), "mip-resolution", what << " level " << nl << " is " << bs(lvl->extents()));
    VGrid x, y, z, have; V3i r1(got.x, res.y, res.z), r2(got.x, got.y, res.z);
    halve<Filter>(prev, x, r1, 0, add.x); halve<Filter>(x, y, r2, 1, add.y); halve<Filter>(y, z, got, 2, add.z);
    toV<T>(*lvl, have);
    forVox(zbox(got), [&](int i, int j, int k) {
      double d = (have.at(i, j, k) - z.at(i, j, k)).length();
      PBT_CHECK(d <= eps, "mip-value", what << " level " << nl << " voxel (" << i << "," << j << "," << k << ") is " << vs(have.at(i, j, k)) << " expected " << vs(z.at(i, j, k)));
    });
    // levels lie on top of each other in space
    {
      for (int q = 0; q < 2; ++q) {
        V3d v, w, w2; V3f lv; for (int a = 0; a < 3; ++a) { v[a] = s.real(0, dims(base.dataWindow())[a]); }
        float t = (float)s.real(-1.5, 1.5);
        base.mapping()->voxelToWorld(v, w, t);
        mip.getVsMIPCoord(V3f(v), nl, lv);
        for (int a = 0; a < 3; ++a) { double e = (v[a] + offset[a] - ((offset[a] >> nl) << nl)) / mult; PBT_CHECK(fabs(lv[a] - e) < 1e-3, "mip-coord", what << " level " << nl << ": coordinate " << vs(v) << " becomes " << vs(lv) << ", axis " << a << " should be " << e); }
        V3d lvd; for (int a = 0; a < 3; ++a) { lvd[a] = (v[a] + offset[a] - ((offset[a] >> nl) << nl)) / mult; }
        lvl->mapping()->voxelToWorld(lvd, w2, t);
        PBT_CHECK((w - w2).length() < 1e-4 * (10 + w.length()), "mip-mapping", what << " level " << nl << " at time " << t << ": base coordinate " << vs(v) << " is at " << vs(w) << ", the same place in the level is at " << vs(w2));
      }
    }
    prev = have; res = got; for (int a = 0; a < 3; ++a) { off[a] = floorDiv2(off[a]); }
    ++nl;
  }
  PBT_CHECK(nl == mip.numLevels(), "mip-levels", what << " has " << mip.numLevels() << " levels, expected " << nl);
  if (nl > 2) { c.label("3+levels"); }
}

template <class T, class Filter> void mipCase(Src &s, Ctx &c)
{
  V3i res = genRes(s, 22);
  if (s.chance(35)) { res = genRes(s, 6); res[s.below(3)] = (int)s.range(30, 90); }   // more than one block of threads' work
  if (s.chance(70)) { for (int a = 0; a < 3; ++a) { res[a] = std::max(res[a], 3); } }
  Box3i b = zbox(res);
  bool padded = s.chance(4), shifted = s.chance(6);
  V3i off(0); bool useOff = s.chance(40);
  if (useOff) { for (int a = 0; a < 3; ++a) { off[a] = (int)s.around0(-9, 9); } }
  int minSize = (int)s.range(1, 8), th = (int)s.range(1, 4), order = (int)s.range(1, 4);
  if (shifted) { V3i o((int)s.around0(-3, 3), (int)s.around0(-3, 3), 1); b.min += o; b.max += o; }
  Grid<T> g; genGrid(s, b, g, s.chance(30) ? 3 : -1);
  if (s.chance(15)) {   // a single voxel where the filter of the neighbouring block reaches
    V3i v = genVoxel(s, b); g.reset(b, mkConst<T>(0));
    for (int a = 0; a < 3; ++a) { if (v[a] > 20) { v[a] = (v[a] & ~31) + (int)s.range(-9, 9); v[a] = std::max(b.min[a], std::min(b.max[a], v[a])); } }
    g.at(v.x, v.y, v.z) = mkConst<T>(100);
  }
  if (Kind<Filter>::k && s.chance(30)) {   // minima and maxima of the largest values
    double m = sizeof(typename Comp<T>::type) == 2 ? 65504 : (double)std::numeric_limits<float>::max(); uint64_t h = s.below(1u << 30);
    forVox(b, [&](int i, int j, int k) { uint64_t x = vhash(h, i, j, k); if (x % 3) { for (int q = 0; q < Comp<T>::n; ++q) { Comp<T>::set(g.at(i, j, k), q, (x & 8) && h % 3 ? -m : m); } } });
    c << "huge values ";
  }
  MatrixSpec ms = genMatrixSpec(s); bool matrix = s.chance(70);
  c << bs(b) << " offset " << vs(off) << " min " << minSize << " threads " << th << " order " << order << (matrix ? " matrix x" + std::to_string(ms.samples.size()) : std::string());
  Box3i ext = b; if (padded) { ext.max += V3i(1); }
  DenseField<T> df; df.setSize(ext, b); toField(g, df);
  SparseField<T> sf; sf.setBlockOrder(order); sf.setSize(ext, b); sf.clear(mkConst<T>(0)); toFieldSparse(g, sf, mkConst<T>(0));
  for (FieldRes *f : std::vector<FieldRes *>{&df, &sf}) {
    f->name = "nm"; f->attribute = "at"; f->metadata().setIntMetadata("an_int", 17);
    if (matrix) { f->setMapping(mkMatrix(ms)); } else { f->setMapping(FieldMapping::Ptr(new NullFieldMapping)); }
  }
  typedef MIPDenseField<T> MD; typedef MIPSparseField<T> MS;
  auto dm = build<DenseField<T>, MD, Filter>(df, minSize, off, useOff, th);
  auto sm = build<SparseField<T>, MS, Filter>(sf, minSize, off, useOff, th);
  PBT_CHECK(!dm == !sm, "mip-class", "one class builds a pyramid, the other does not");
  if (padded || b.min != V3i(0)) { PBT_CHECK(!dm, "mip-unsupported", "a field with extents " << bs(ext) << " and window " << bs(b) << " was accepted"); c.label("refused"); return; }
  PBT_CHECK(dm, "mip-null", "no pyramid was built");
  checkMip<T, MIPField<DenseField<T> >, Filter>(s, c, df, *dm, minSize, off, "dense pyramid");
  checkMip<T, MIPField<SparseField<T> >, Filter>(s, c, sf, *sm, minSize, off, "sparse pyramid");
  for (size_t l = 0; l < dm->numLevels(); ++l) {
    VGrid a, e; toV<T>(*dm->mipLevel(l), a); toV<T>(*sm->mipLevel(l), e);
    PBT_CHECK(a.res == e.res && a.d == e.d, "mip-class", "level " << l << " differs between the dense and the sparse pyramid");
  }
  // thread counts
  int th2 = th == 1 ? 3 : 1;
  auto sm2 = build<SparseField<T>, MS, Filter>(sf, minSize, off, useOff, th2);
  for (size_t l = 0; l < sm->numLevels(); ++l) {
    VGrid a, e; toV<T>(*sm2->mipLevel(l), a); toV<T>(*sm->mipLevel(l), e);
    PBT_CHECK(a.res == e.res && a.d == e.d, "mip-threads", "level " << l << " differs between " << th << " and " << th2 << " threads");
  }
  checkGrid<T>(df, g, "mip-source", "base field after building");
  c.nontrivial = dm->numLevels() > 1;
}
template <class T> void filterCase(Src &s, Ctx &c)
{
  switch (s.weighted({4, 2, 1, 1, 2, 2})) {
  case 0: c << "triangle "; mipCase<T, TriangleFilter>(s, c); break;
  case 1: c << "box "; mipCase<T, BoxFilter>(s, c); break;
  case 2: c << "min "; mipCase<T, MinFilter>(s, c); break;
  case 3: c << "max "; mipCase<T, MaxFilter>(s, c); break;
  case 4: c << "gaussian "; mipCase<T, GaussianFilter>(s, c); break;
  default: c << "mitchell "; mipCase<T, MitchellFilter>(s, c); break;
  }
}
PBT_TEST_MT(make_mip, 3000, 40000, "dense and sparse fields (block order 1-4, unallocated parts) of three voxel types, six filters, offsets positive and negative, minimum sizes, 1-4 threads, moving mappings: every level against the halving of the previous level in double, resolution, coverage, alignment in space at generated times, metadata, same result for both classes and any thread count; fields with padding or off the origin are refused; non-trivial = at least two levels")
{
  int t = (int)s.weighted({4, 1, 2});
  c << (t == 0 ? "float " : t == 1 ? "half " : "V3f ");
  switch (t) { case 0: filterCase<float>(s, c); break; case 1: filterCase<half>(s, c); break; default: filterCase<V3f>(s, c); }
}

template <class T> void minmaxCase(Src &s, Ctx &c)
{
  V3i res; for (int a = 0; a < 3; ++a) { res[a] = (int)s.range(2, 20); }
  Grid<T> g; genGrid(s, zbox(res), g); float mult = s.chance(30) ? 1.0f : (float)s.range(1, 12) * 0.1f; int th = (int)s.range(1, 3);
  bool sparse = s.flip();
  c << vs(res) << " mult " << mult << (sparse ? " sparse" : " dense");
  typename Field<T>::Ptr f; typename MIPBase<T>::Ptr lo, hi;
  if (sparse) {
    typename SparseField<T>::Ptr p(new SparseField<T>); p->setBlockOrder((int)s.range(1, 4)); p->setSize(res); p->clear(mkConst<T>(0)); toFieldSparse(g, *p, mkConst<T>(0));
    p->name = "nm"; p->attribute = "at"; auto r = makeMinMax<MIPSparseField<T> >(*p, mult, th); lo = r.first; hi = r.second;
  } else {
    typename DenseField<T>::Ptr p(new DenseField<T>); p->setSize(res); toField(g, *p); p->name = "nm"; p->attribute = "at";
    auto r = makeMinMax<MIPDenseField<T> >(*p, mult, th); lo = r.first; hi = r.second;
  }
  PBT_CHECK(lo && hi, "minmax-null", "no result");
  V3i want; for (int a = 0; a < 3; ++a) { want[a] = std::max(2, (int)((float)res[a] * std::min(1.0f, mult))); }
  PBT_CHECK(lo->mipResolution(0) == want && hi->mipResolution(0) == want, "minmax-resolution", "resolution " << vs(lo->mipResolution(0)) << " expected " << vs(want));
  PBT_CHECK(lo->name == "nm" && hi->attribute == "at", "minmax-name", "name and attribute");
  PBT_CHECK(lo->numLevels() == hi->numLevels(), "minmax-levels", "different level counts");
  for (size_t l = 0; l < lo->numLevels(); ++l) {
    V3i lr = lo->mipResolution(l);
    forVox(zbox(res), [&](int i, int j, int k) {
      V3i v(i, j, k), c0; bool tie = false;
      for (int a = 0; a < 3; ++a) { double x = (v[a] + 0.5) * want[a] / res[a] / (1 << l); c0[a] = std::min((int)floor(x), lr[a] - 1); if (fabs(x - floor(x + 0.5)) < 1e-4) { tie = true; } }
      if (tie) { return; }
      T val = g.at(i, j, k), mn = lo->mipValue(l, c0.x, c0.y, c0.z), mx = hi->mipValue(l, c0.x, c0.y, c0.z);
      for (int a = 0; a < Comp<T>::n; ++a) {
        PBT_CHECK(Comp<T>::get(mn, a) <= Comp<T>::get(val, a) && Comp<T>::get(val, a) <= Comp<T>::get(mx, a), "minmax-bounds", "voxel " << vs(v) << " holds " << vs(val) << ", level " << l << " voxel " << vs(c0) << " claims the range " << vs(mn) << ".." << vs(mx));
      }
    });
    // and the bounds are attained somewhere in the field
    T lo0 = g.d[0], hi0 = g.d[0]; for (auto &v : g.d) { for (int a = 0; a < Comp<T>::n; ++a) { Comp<T>::set(lo0, a, std::min(Comp<T>::get(lo0, a), Comp<T>::get(v, a))); Comp<T>::set(hi0, a, std::max(Comp<T>::get(hi0, a), Comp<T>::get(v, a))); } }
    forVox(zbox(lr), [&](int i, int j, int k) { for (int a = 0; a < Comp<T>::n; ++a) {
      double mn = Comp<T>::get(lo->mipValue(l, i, j, k), a), mx = Comp<T>::get(hi->mipValue(l, i, j, k), a);
      PBT_CHECK(mn >= Comp<T>::get(lo0, a) && mx <= Comp<T>::get(hi0, a) && mn <= mx, "minmax-loose", "level " << l << " voxel (" << i << "," << j << "," << k << ") claims " << mn << ".." << mx << " beyond the range of the field"); } });
  }
  c.nontrivial = lo->numLevels() > 1 || want != res;
}
PBT_TEST_MT(min_max, 4000, 50000, "makeMinMax over generated fields, resolution multipliers and threads: at every level each source voxel is within the bounds of the cell that holds it, and no bound exceeds the field's range; non-trivial = reduced or several levels")
{
  int t = (int)s.weighted({3, 1, 2}); c << (t == 0 ? "float " : t == 1 ? "half " : "V3f ");
  switch (t) { case 0: minmaxCase<float>(s, c); break; case 1: minmaxCase<half>(s, c); break; default: minmaxCase<V3f>(s, c); }
}
//! Voxels times a power of two
template <class T, class Filter> void scaledCase(Src &s, Ctx &c)
{
  V3i res; for (int a = 0; a < 3; ++a) { res[a] = (int)s.range(3, 18); }
  V3i off(0); if (s.flip()) { for (int a = 0; a < 3; ++a) { off[a] = (int)s.around0(-5, 5); } }
  int k = genPow2(s), th = (int)s.range(1, 3), order = (int)s.range(1, 4);
  Grid<T> g; genGrid(s, zbox(res), g); Grid<T> h = timesPow2(g, k); double mag = largest(g);
  c << vs(res) << " offset " << vs(off) << " threads " << th << " order " << order << " times 2^" << k;
  typename MIPDenseField<T>::Ptr dm[2]; typename MIPSparseField<T>::Ptr sm[2];
  for (int q = 0; q < 2; ++q) {
    DenseField<T> df; df.setSize(res); toField(q ? h : g, df);
    SparseField<T> sf; sf.setBlockOrder(order); sf.setSize(res); sf.clear(mkConst<T>(0)); toFieldSparse(q ? h : g, sf, mkConst<T>(0));
    dm[q] = build<DenseField<T>, MIPDenseField<T>, Filter>(df, 2, off, true, th); sm[q] = build<SparseField<T>, MIPSparseField<T>, Filter>(sf, 2, off, true, th);
    PBT_CHECK(dm[q] && sm[q], "mip-null", "no pyramid was built");
  }
  PBT_CHECK(dm[0]->numLevels() == dm[1]->numLevels() && sm[0]->numLevels() == sm[1]->numLevels(), "mip-scaled", "the number of levels depends on the voxel values");
  for (size_t l = 0; l < dm[0]->numLevels(); ++l) {
    auto cmp = [&](const Field<T> &x, const Field<T> &y, const char *what) {
      PBT_CHECK(x.dataWindow() == y.dataWindow(), "mip-scaled", "the size of level " << l << " depends on the voxel values");
      forVox(x.dataWindow(), [&](int i, int j, int m) { T a = x.value(i, j, m), b = y.value(i, j, m);
        PBT_CHECK(isScaled(a, b, k, mag), "mip-scaled", what << " level " << l << " voxel (" << i << "," << j << "," << m << ") is " << vs(a) << ", of the base times 2^" << k << " it is " << vs(b)); });
    };
    cmp(*dm[0]->concreteMipLevel(l), *dm[1]->concreteMipLevel(l), "dense"); cmp(*sm[0]->concreteMipLevel(l), *sm[1]->concreteMipLevel(l), "sparse");
  }
  c.nontrivial = mag > 0 && dm[0]->numLevels() > 1;
}
PBT_TEST_MT(scaled, 600, 8000, "base voxels times a power of two from 2^-30 to 2^30 under six filters: every level is that of the original base times that power; non-trivial = not all zero, several levels")
{
  int t = (int)s.below(3); c << (t == 0 ? "float " : t == 1 ? "double " : "V3f ");
  auto go = [&](auto v) {
    typedef decltype(v) T;
    switch (s.below(6)) {
    case 0: c << "triangle "; scaledCase<T, TriangleFilter>(s, c); break;
    case 1: c << "box "; scaledCase<T, BoxFilter>(s, c); break;
    case 2: c << "min "; scaledCase<T, MinFilter>(s, c); break;
    case 3: c << "max "; scaledCase<T, MaxFilter>(s, c); break;
    case 4: c << "gaussian "; scaledCase<T, GaussianFilter>(s, c); break;
    default: c << "mitchell "; scaledCase<T, MitchellFilter>(s, c); break;
    }
  };
  switch (t) { case 0: go(0.0f); break; case 1: go(0.0); break; default: go(V3f(0)); }
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); }; } } g_init;
