// C01: every field class is a faithful voxel store.
#include "common.h"
#include <array>
#include <new>
using namespace fx;

//! Uniform access to what differs between the classes
template <class F> struct Acc;
template <class T> struct Acc<DenseField<T> > {
  static const bool sparse = false, mac = false;
  static T fast(const DenseField<T> &f, int i, int j, int k) { return f.fastValue(i, j, k); }
  static void fastSet(DenseField<T> &f, int i, int j, int k, const T &v) { f.fastLValue(i, j, k) = v; }
  static const char *name() { return "DenseField"; }
};
template <class T> struct Acc<SparseField<T> > {
  static const bool sparse = true, mac = false;
  static T fast(const SparseField<T> &f, int i, int j, int k) { return f.fastValue(i, j, k); }
  static void fastSet(SparseField<T> &f, int i, int j, int k, const T &v) { f.fastLValue(i, j, k) = v; }
  static const char *name() { return "SparseField"; }
};
template <class T> void setOrder(SparseField<T> &f, int o) { f.setBlockOrder(o); }
template <class T> void setOrder(DenseField<T> &, int) {}

template <class T> void checkInvariants(const DenseField<T> &f)
{
  V3i r = dims(f.dataWindow());
  const FIELD3D_VEC3_T<size_t> &m = f.internalMemSize();
  PBT_CHECK(m.x == (size_t)r.x && m.y == (size_t)r.y && m.z == (size_t)r.z, "dense-memsize", "internalMemSize differs from the data window");
  PBT_CHECK(f.memSize() >= (long long)(vol(f.dataWindow()) * sizeof(T)), "dense-memsize", "memSize below the data");
}
template <class T> void checkInvariants(const SparseField<T> &f)
{
  int bsz = f.blockSize();
  PBT_CHECK(bsz == 1 << f.blockOrder(), "sparse-blocksize", "blockSize");
  V3i r = dims(f.dataWindow()), br = f.blockRes();
  for (int d = 0; d < 3; ++d) {
    PBT_CHECK(br[d] == (r[d] + bsz - 1) / bsz, "sparse-blockres", "blockRes " << vs(br) << " for data window " << bs(f.dataWindow()));
  }
}

template <class F> void checkAll(const F &f, const Grid<typename F::value_type> &g, const Def &d, const std::string &what)
{
  typedef typename F::value_type T;
  PBT_CHECK(f.extents() == d.ext, "extents", what << ": extents " << bs(f.extents()) << " expected " << bs(d.ext));
  PBT_CHECK(f.dataWindow() == d.dw, "datawindow", what << ": data window " << bs(f.dataWindow()) << " expected " << bs(d.dw));
  PBT_CHECK(f.dataResolution() == dims(d.dw), "dataresolution", what << ": dataResolution");
  checkGridBits<T>(f, g, "voxel-value", what);
  forVox(g.b, [&](int i, int j, int k) {
    T v = Acc<F>::fast(f, i, j, k);
    PBT_CHECK(bitSame(v, g.at(i, j, k)), "fast-value", what << ": fastValue(" << i << "," << j << "," << k << ") is " << vs(v) << ", expected " << vs(g.at(i, j, k)));
  });
  checkInvariants(f);
}

template <class F> void storeHistory(Src &s, Ctx &c, int maxRes)
{
  typedef typename F::value_type T;
  typename F::Ptr f(new F);
  Def d; Grid<T> g;
  auto resize = [&]() {
    switch (s.weighted({5, 2, 2, 2})) {
    case 0: d = genDef(s, maxRes); f->setSize(d.ext, d.dw); c << " setSize" << bs(d.ext) << bs(d.dw); break;
    case 1: d.ext = d.dw = genBox(s, maxRes); f->setSize(d.ext); c << " setSize" << bs(d.ext); break;
    case 2: { V3i r = genRes(s, maxRes); d.ext = d.dw = zbox(r); f->setSize(r); c << " setSize" << vs(r); break; }
    default: {
      V3i r = genRes(s, maxRes); int p = (int)s.range(0, 3);
      d.ext = zbox(r); d.dw = Box3i(V3i(-p), r - V3i(1) + V3i(p)); f->setSize(r, p);
      c << " setSize" << vs(r) << "pad" << p; break;
    }
    }
    T v = s.flip() ? mkConst<T>(0) : anyVal<T>(s.below(1000));
    f->clear(v); g.reset(d.dw, v);
    c << " clear(" << vs(v) << ")";
  };
  if (Acc<F>::sparse && s.flip()) { int o = (int)s.range(1, 5); setOrder(*f, o); c << " order" << o; }
  resize();
  int n = (int)s.range(1, 30);
  int writes = 0;
  bool sub = !(d.dw == d.ext);
  for (int q = 0; q < n; ++q) {
    switch (s.weighted({6, 3, 4, 2, 1, 1, 2, 1})) {
    case 0: { V3i p = genVoxel(s, g.b); T v = anyVal<T>(s.below(100000)); f->lvalue(p.x, p.y, p.z) = v; g.at(p.x, p.y, p.z) = v; ++writes;
        c << " w" << vs(p); break; }
    case 1: { V3i p = genVoxel(s, g.b); T v = anyVal<T>(s.below(100000)); Acc<F>::fastSet(*f, p.x, p.y, p.z, v); g.at(p.x, p.y, p.z) = v; ++writes;
        c << " fw" << vs(p); break; }
    case 2: {   // fill a box with noise
        Box3i b = genSub(s, g.b); uint64_t sd = s.below(100000);
        forVox(b, [&](int i, int j, int k) { T v = anyVal<T>(vhash(sd, i, j, k)); f->lvalue(i, j, k) = v; g.at(i, j, k) = v; ++writes; });
        c << " fill" << bs(b); break; }
    case 3: { T v = anyVal<T>(s.below(1000)); f->clear(v); g.reset(g.b, v); c << " clear(" << vs(v) << ")"; break; }
    case 4: resize(); sub = sub || !(d.dw == d.ext); break;
    case 5: if (Acc<F>::sparse) {   // changing the block order empties the field
        int o = (int)s.range(1, 6); setOrder(*f, o); T v = anyVal<T>(s.below(1000)); f->clear(v); g.reset(g.b, v); c << " order" << o; }
        break;
    case 6: {   // reading must not disturb
        for (int r = 0; r < 4; ++r) { V3i p = genVoxel(s, g.b); T v = f->lvalue(p.x, p.y, p.z);
          PBT_CHECK(bitSame(v, g.at(p.x, p.y, p.z)), "lvalue-read", "lvalue" << vs(p) << " reads " << vs(v) << ", expected " << vs(g.at(p.x, p.y, p.z))); }
        break; }
    default: {  // bounds test
        V3i p; for (int a = 0; a < 3; ++a) { p[a] = (int)s.range(g.b.min[a] - 2, g.b.max[a] + 2); }
        bool in = g.b.intersects(p);
        PBT_CHECK(f->isInBounds(p.x, p.y, p.z) == in, "isinbounds", "isInBounds" << vs(p) << " for " << bs(g.b));
        break; }
    }
    if (s.chance(15)) { checkAll(*f, g, d, "during history"); }
  }
  checkAll(*f, g, d, "end of history");
  c.nontrivial = writes > 0 && vol(g.b) > 1;
  if (sub) { c.label("window!=extents"); }
  if (g.b.min.x < 0 || g.b.min.y < 0 || g.b.min.z < 0) { c.label("negative-origin"); }
}

PBT_TEST(store_dense, 12000, 150000, "random histories of setSize/clear/lvalue/fastLValue/fill on a dense field of one of six voxel types, compared to an array; non-trivial = at least one write and more than one voxel")
{
  int t = (int)s.below(6); c << "DenseField<" << typeName(t) << ">";
  withAny(t, [&](auto v) { storeHistory<DenseField<decltype(v)> >(s, c, 10); });
}
PBT_TEST(store_sparse, 12000, 150000, "the same histories on a sparse field with block orders 1-6; non-trivial = at least one write and more than one voxel")
{
  int t = (int)s.below(6); c << "SparseField<" << typeName(t) << ">";
  withAny(t, [&](auto v) { storeHistory<SparseField<decltype(v)> >(s, c, 20); });
}

//----------------------------------------------------------------------------
// MAC field: three face arrays, cell-centred value
//----------------------------------------------------------------------------
template <class T> void macHistory(Src &s, Ctx &c)
{
  typedef typename T::BaseType R;
  typedef MACField<T> F;
  typename F::Ptr f(new F);
  Def d; Grid<R> u, v, w;
  auto resize = [&]() {
    d = genDef(s, 7); f->setSize(d.ext, d.dw); T cv = anyVal<T>(s.below(1000)); f->clear(cv);
    c << " setSize" << bs(d.ext) << bs(d.dw) << " clear" << vs(cv);
    u.reset(Box3i(d.dw.min, d.dw.max + V3i(1, 0, 0)), cv.x); v.reset(Box3i(d.dw.min, d.dw.max + V3i(0, 1, 0)), cv.y);
    w.reset(Box3i(d.dw.min, d.dw.max + V3i(0, 0, 1)), cv.z);
  };
  auto check = [&](const char *what) {
    const F &cf = *f;
    PBT_CHECK(cf.extents() == d.ext && cf.dataWindow() == d.dw, "mac-extents", what << ": extents");
    forVox(u.b, [&](int i, int j, int k) { PBT_CHECK(bitSame(cf.u(i, j, k), u.at(i, j, k)), "mac-u", what << ": u(" << i << "," << j << "," << k << ") is " << vs(cf.u(i, j, k)) << " expected " << vs(u.at(i, j, k))); });
    forVox(v.b, [&](int i, int j, int k) { PBT_CHECK(bitSame(cf.v(i, j, k), v.at(i, j, k)), "mac-v", what << ": v(" << i << "," << j << "," << k << ") is " << vs(cf.v(i, j, k)) << " expected " << vs(v.at(i, j, k))); });
    forVox(w.b, [&](int i, int j, int k) { PBT_CHECK(bitSame(cf.w(i, j, k), w.at(i, j, k)), "mac-w", what << ": w(" << i << "," << j << "," << k << ") is " << vs(cf.w(i, j, k)) << " expected " << vs(w.at(i, j, k))); });
    forVox(d.dw, [&](int i, int j, int k) {
      T x = cf.value(i, j, k);
      V3d e(((double)u.at(i, j, k) + (double)u.at(i + 1, j, k)) * 0.5, ((double)v.at(i, j, k) + (double)v.at(i, j + 1, k)) * 0.5,
            ((double)w.at(i, j, k) + (double)w.at(i, j, k + 1)) * 0.5);
      double tol = sizeof(R) == 2 ? 0.26 : 1e-4;
      bool plain = true; for (int a = 0; a < 3; ++a) { plain = plain && std::fabs(e[a]) < 130; }     // finite, no overflow
      PBT_CHECK(!plain || diff(x, e) <= tol, "mac-value", what << ": value(" << i << "," << j << "," << k << ") is " << vs(x) << " expected the mean of the faces " << vs(e));
      PBT_CHECK(same(x.x, cf.uCenter(i, j, k)) && same(x.y, cf.vCenter(i, j, k)) && same(x.z, cf.wCenter(i, j, k)), "mac-center", what << ": uCenter/vCenter/wCenter differ from value");
    });
    V3i cs = cf.getComponentSize();
    PBT_CHECK(cs == V3i((int)u.d.size(), (int)v.d.size(), (int)w.d.size()), "mac-compsize", what << ": component sizes " << vs(cs));
  };
  resize();
  int n = (int)s.range(1, 20), writes = 0;
  for (int q = 0; q < n; ++q) {
    switch (s.weighted({3, 3, 3, 3, 1, 1})) {
    case 0: { V3i p = genVoxel(s, u.b); R x = anyVal<R>(s.below(10000)); f->u(p.x, p.y, p.z) = x; u.at(p.x, p.y, p.z) = x; c << " u" << vs(p); ++writes; break; }
    case 1: { V3i p = genVoxel(s, v.b); R x = anyVal<R>(s.below(10000)); f->v(p.x, p.y, p.z) = x; v.at(p.x, p.y, p.z) = x; c << " v" << vs(p); ++writes; break; }
    case 2: { V3i p = genVoxel(s, w.b); R x = anyVal<R>(s.below(10000)); f->w(p.x, p.y, p.z) = x; w.at(p.x, p.y, p.z) = x; c << " w" << vs(p); ++writes; break; }
    case 3: {   // fill all three with noise
      uint64_t sd = s.below(10000);
      forVox(u.b, [&](int i, int j, int k) { R x = anyVal<R>(vhash(sd, i, j, k)); f->u(i, j, k) = x; u.at(i, j, k) = x; });
      forVox(v.b, [&](int i, int j, int k) { R x = anyVal<R>(vhash(sd + 1, i, j, k)); f->v(i, j, k) = x; v.at(i, j, k) = x; });
      forVox(w.b, [&](int i, int j, int k) { R x = anyVal<R>(vhash(sd + 2, i, j, k)); f->w(i, j, k) = x; w.at(i, j, k) = x; });
      c << " noise"; ++writes; break; }
    case 4: { T x = anyVal<T>(s.below(1000)); f->clear(x); u.reset(u.b, x.x); v.reset(v.b, x.y); w.reset(w.b, x.z); c << " clear" << vs(x); break; }
    default: resize();
    }
    if (s.chance(15)) { check("during history"); }
  }
  check("end of history");
  c.nontrivial = writes > 0;
}
PBT_TEST(store_mac, 8000, 80000, "histories of u/v/w writes, clears and resizes on a staggered field, compared to three face arrays; non-trivial = at least one face write")
{
  int t = (int)s.below(3); c << "MACField<" << typeName(t + 3) << ">";
  withVector(t, [&](auto v) { macHistory<decltype(v)>(s, c); });
}

//----------------------------------------------------------------------------
// Read-only fields
//----------------------------------------------------------------------------
PBT_TEST(store_empty, 2000, 20000, "EmptyField with generated extents returns its constant everywhere; non-trivial = non-zero constant")
{
  Def d = genDef(s, 6);
  float v = anyVal<float>(s.below(1000));
  EmptyField<float>::Ptr f(new EmptyField<float>);
  f->setSize(d.ext, d.dw); f->clear(v);
  c << bs(d.ext) << bs(d.dw) << " constant " << v;
  Grid<float> g; g.reset(d.dw, v);
  checkGrid<float>(*f, g, "empty-value", "EmptyField");
  PBT_CHECK(bitSame(f->constantvalue(), v), "empty-constant", "constantvalue");
  c.nontrivial = v != 0;
}

//! Requests no machine could meet are refused as the system would, and not by the sanitizer
static void *allocate(size_t n)
{
  void *p = n > (size_t(1) << 33) ? NULL : malloc(n ? n : 1);
  if (!p) { throw std::bad_alloc(); }
  return p;
}
void *operator new(size_t n) { return allocate(n); }
void *operator new[](size_t n) { return allocate(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

template <class F> void tooBig(Src &s, Ctx &c, const char *name)
{
  typedef typename F::value_type T;
  // 2^41 to 2^91 voxels, many at or just over a multiple of 2^32
  int total = (int)s.range(41, 88), ea = (int)s.range(std::max(1, total - 60), 30), eb = (int)s.range(std::max(1, total - ea - 30), 30), ec = std::min(30, std::max(1, total - ea - eb));
  int e[3] = {ea, eb, ec}; V3i r; double vox = 1;
  for (int a = 0; a < 3; ++a) { r[a] = (1 << e[a]) + (s.chance(30) ? (int)s.range(0, 3) : 0); vox *= r[a]; }
  int o = (int)s.range(-9, 9); Box3i b(V3i(o), V3i(o - 1) + r);
  typename F::Ptr f(new F); int order = Acc<F>::sparse ? (int)s.range(1, 4) : 0; if (order) { setOrder(*f, order); }
  c << name << " " << vs(r) << " voxels"; if (order) { c << " order " << order; }
  // what sparse fields store is one entry per block
  double need = 1; for (int a = 0; a < 3; ++a) { need *= std::ceil((double)r[a] / (1 << order)); }
  if (order && need < double(1ull << 31)) { return; }
  bool threw = false;
  try { f->setSize(b); } catch (Exc::MemoryException &) { threw = true; }
  PBT_CHECK(threw, "too-big", name << " of " << vs(r) << " voxels was set up without an exception");
  c.nontrivial = true;
  // The field can be given another size and used
  Def d = genDef(s, 6); f->setSize(d.ext, d.dw); T v = mkVal<T>(s.below(100)); f->clear(v);
  Grid<T> g; g.reset(d.dw, v);
  for (int q = 0; q < 4; ++q) { V3i p = genVoxel(s, d.dw); T w = mkVal<T>(q); Acc<F>::fastSet(*f, p.x, p.y, p.z, w); g.at(p.x, p.y, p.z) = w; }
  checkAll(*f, g, d, "after a size that does not fit");
}
PBT_TEST(store_toobig, 300, 3000, "dense, sparse and staggered fields of more voxels, or sparse ones of more blocks, than memory or an index can hold, many a multiple of 2^32: setSize() throws MemoryException, and the field can be used at another size; non-trivial = too large")
{
  switch (s.below(5)) {
  case 0: tooBig<DenseField<half> >(s, c, "DenseField<half>"); break;
  case 1: tooBig<DenseField<V3f> >(s, c, "DenseField<V3f>"); break;
  case 2: tooBig<SparseField<float> >(s, c, "SparseField<float>"); break;
  case 3: tooBig<SparseField<V3h> >(s, c, "SparseField<V3h>"); break;
  default: {
    int ea = (int)s.range(8, 30), eb = (int)s.range(8, 30), ec = (int)s.range(std::max(1, 41 - ea - eb), 30); V3i r(1 << ea, 1 << eb, 1 << ec);
    c << "MACField<V3h> " << vs(r); MACField<V3h>::Ptr f(new MACField<V3h>); bool threw = false;
    try { f->setSize(r); } catch (Exc::MemoryException &) { threw = true; }
    PBT_CHECK(threw, "too-big", "a MACField of " << vs(r) << " voxels was set up without an exception"); c.nontrivial = true;
    f->setSize(V3i(3)); f->clear(V3h(1)); f->u(3, 2, 1) = 2; PBT_CHECK(f->u(3, 2, 1) == 2 && f->v(2, 3, 2) == 1, "too-big", "the field lost its values"); break; }
  }
}
PBT_TEST(store_big, -1, -4, "a dense field of half with a little more than 2^31 or 2^32 / 2 voxels; voxels whose indices are apart by powers of two are written and read back; non-trivial always")
{
  int ax = (int)s.below(3); V3i r(1 << 10, 1 << 10, 1 << 10); r[ax] = (1 << 11) + (int)s.range(1, 8);
  int o = (int)s.range(-5, 5); Box3i b(V3i(o), V3i(o - 1) + r); c << bs(b); c.nontrivial = true;
  DenseField<half>::Ptr f(new DenseField<half>); f->setSize(b); PBT_CHECK(f->memSize() > (1ll << 32), "big-size", "memSize() is " << f->memSize());
  std::map<std::array<int, 3>, half> at;
  for (int q = 0; q < 40; ++q) {
    V3i p; for (int a = 0; a < 3; ++a) { p[a] = s.chance(30) ? b.min[a] : s.chance(30) ? b.max[a] : b.min[a] + std::min(r[a] - 1, 1 << (int)s.below(12)); }
    half v = (half)(float)(q + 1); if (q & 1) { f->lvalue(p.x, p.y, p.z) = v; } else { f->fastLValue(p.x, p.y, p.z) = v; } at[{{p.x, p.y, p.z}}] = v;
  }
  for (auto &e : at) { half x = f->value(e.first[0], e.first[1], e.first[2]), y = f->fastValue(e.first[0], e.first[1], e.first[2]); PBT_CHECK(x == e.second && y == e.second, "big-value", "voxel " << e.first[0] << " " << e.first[1] << " " << e.first[2] << " is " << x << ", not " << e.second); }
}
//! Rows that single precision can not count
PBT_TEST(store_wide, 8, 200, "a sparse field of order 6 or 7 and 2^24 to 2^26 voxels along one axis; voxels at its ends and on block edges are written and read back, their neighbours stay clear; non-trivial = a length floats can not hold")
{
  int ax = (int)s.below(3), order = 6 + (int)s.below(2);
  int n = (1 << (24 + (int)s.below(3))) + (int)s.range(-3, 70), o = (int)s.range(-100, 100);
  V3i lo(o, 0, 0), hi(o, 0, 0); lo[ax] = o; hi[ax] = o + n - 1; for (int i = 0; i < 3; ++i) { if (i != ax) { lo[i] = (int)s.range(-2, 2); hi[i] = lo[i] + (int)s.below(2); } }
  Box3i b(lo, hi);
  SparseField<half>::Ptr f(new SparseField<half>); f->setBlockOrder(order); f->setSize(b); f->clear((half)1.0f);
  c << "axis " << ax << " order " << order << bs(b); c.nontrivial = (int)(float)n != n;
  V3i br = f->blockRes();
  for (int i = 0; i < 3; ++i) { int64_t r = (int64_t)hi[i] - lo[i] + 1; PBT_CHECK(br[i] == (r + (1 << order) - 1) >> order, "wide-blocks", "blockRes() " << br << " for " << r << " voxels on axis " << i); }
  std::map<int, half> at; V3i p = lo;
  for (int q = 0; q < 5; ++q) {
    int k = q == 0 ? hi[ax] : q == 1 ? lo[ax] : q == 2 ? lo[ax] + ((int)s.below(n) >> order << order) : (int)(lo[ax] + s.below(n));
    p[ax] = k; half x = (half)(float)(2 + q); f->lvalue(p.x, p.y, p.z) = x; at[k] = x;
  }
  for (auto &e : at) {
    for (int k = e.first - 1; k <= e.first + 1; ++k) {
      if (k < lo[ax] || k > hi[ax]) { continue; }
      p[ax] = k; auto it = at.find(k); half want = it == at.end() ? (half)1.0f : it->second;
      PBT_CHECK(f->value(p.x, p.y, p.z) == want && f->fastValue(p.x, p.y, p.z) == want, "wide-value", "voxel " << p << " is " << f->value(p.x, p.y, p.z) << ", not " << want);
    }
  }
}

//! Fields share nothing: writing to one leaves another unchanged, whatever the class
PBT_TEST(store_isolated, 4000, 40000, "two fields of random classes written alternately; each keeps only its own values; non-trivial = both written")
{
  Def d1 = genDef(s, 9), d2 = genDef(s, 9);
  ResizableField<float>::Ptr a, b;
  bool sa = s.flip(), sb = s.flip();
  if (sa) { SparseField<float>::Ptr p(new SparseField<float>); p->setBlockOrder((int)s.range(1, 4)); a = p; } else { a = new DenseField<float>; }
  if (sb) { SparseField<float>::Ptr p(new SparseField<float>); p->setBlockOrder((int)s.range(1, 4)); b = p; } else { b = new DenseField<float>; }
  a->setSize(d1.ext, d1.dw); b->setSize(d2.ext, d2.dw); a->clear(1); b->clear(2);
  Grid<float> ga, gb; ga.reset(d1.dw, 1); gb.reset(d2.dw, 2);
  c << (sa ? "sparse" : "dense") << bs(d1.dw) << " " << (sb ? "sparse" : "dense") << bs(d2.dw);
  int n = (int)s.range(2, 24);
  for (int q = 0; q < n; ++q) {
    float x = anyVal<float>(s.below(100000));
    if (s.flip()) { V3i p = genVoxel(s, ga.b); a->lvalue(p.x, p.y, p.z) = x; ga.at(p.x, p.y, p.z) = x; }
    else { V3i p = genVoxel(s, gb.b); b->lvalue(p.x, p.y, p.z) = x; gb.at(p.x, p.y, p.z) = x; }
  }
  checkGrid<float>(*a, ga, "isolated", "first"); checkGrid<float>(*b, gb, "isolated", "second");
  c.nontrivial = true;
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;
