// C02: iteration visits exactly the requested voxels, once each, x fastest.
#include "common.h"
using namespace fx;

//! The visiting order required of every iterator
static std::vector<V3i> order(const Box3i &b) { std::vector<V3i> r; forVox(b, [&](int i, int j, int k) { r.push_back(V3i(i, j, k)); }); return r; }

template <class T, class It> void walkConst(It i, const It &e, const std::vector<V3i> &o, const Grid<T> &g, const char *what)
{
  size_t n = 0;
  for (; i != e; ++i, ++n) {
    PBT_CHECK(n < o.size(), "iter-overrun", what << ": more than " << o.size() << " voxels visited");
    PBT_CHECK(V3i(i.x, i.y, i.z) == o[n], "iter-order", what << ": step " << n << " is at (" << i.x << "," << i.y << "," << i.z << "), expected " << vs(o[n]));
    T v = *i;
    PBT_CHECK(same(v, g.at(i.x, i.y, i.z)), "iter-value", what << ": voxel " << vs(o[n]) << " reads " << vs(v) << ", stored " << vs(g.at(i.x, i.y, i.z)));
  }
  PBT_CHECK(n == o.size(), "iter-short", what << ": visited " << n << " of " << o.size() << " voxels");
  PBT_CHECK(i == e, "iter-end", what << ": end comparison");
}
template <class T, class It> void walkWrite(It i, const It &e, const std::vector<V3i> &o, Grid<T> &g, uint64_t seed, bool alsoRead, const char *what)
{
  size_t n = 0;
  for (; i != e; ++i, ++n) {
    PBT_CHECK(n < o.size(), "iter-overrun", what << ": more than " << o.size() << " voxels visited");
    V3i p(i.x, i.y, i.z);
    PBT_CHECK(p == o[n], "iter-order", what << ": step " << n << " is at " << vs(p) << ", expected " << vs(o[n]));
    uint64_t h = vhash(seed, p.x, p.y, p.z);
    if (alsoRead) { T v = *i; PBT_CHECK(same(v, g.at(p.x, p.y, p.z)), "iter-value", what << ": voxel " << vs(p) << " reads " << vs(v) << ", stored " << vs(g.at(p.x, p.y, p.z))); }
    if (h & 3) { T v = mkVal<T>(h); *i = v; g.at(p.x, p.y, p.z) = v; }
  }
  PBT_CHECK(n == o.size(), "iter-short", what << ": visited " << n << " of " << o.size() << " voxels");
}

template <class F> void iterCase(Src &s, Ctx &c, F &f, int maxRes)
{
  typedef typename F::value_type T;
  Def d = genDef(s, maxRes);
  f.setSize(d.ext, d.dw);
  T bg = s.flip() ? mkConst<T>(0) : mkVal<T>(s.below(100));
  f.clear(bg);
  Grid<T> g; genGrid<T>(s, d.dw, g);
  if (s.flip()) { for (auto &v : g.d) { if (same(v, mkConst<T>(0))) { v = bg; } } }
  toFieldSparse(g, f, bg);
  c << " ext" << bs(d.ext) << " dw" << bs(d.dw) << " bg " << vs(bg);
  const F &cf = f;
  const Field<T> &base = f;
  int n = (int)s.range(1, 5);
  for (int q = 0; q < n; ++q) {
    Box3i sub = genSub(s, d.dw);
    int op = (int)s.weighted({2, 4, 2, 3, 1, 2, 1, 1});
    c << " op" << op << bs(op & 1 ? sub : d.dw);
    switch (op) {
    case 0: walkConst<T>(cf.cbegin(), cf.cend(), order(d.dw), g, "cbegin()"); break;
    case 1: walkConst<T>(cf.cbegin(sub), cf.cend(sub), order(sub), g, "cbegin(subset)"); break;
    case 2: walkWrite<T>(f.begin(), f.end(), order(d.dw), g, s.below(1000), s.flip(), "begin()"); break;
    case 3: walkWrite<T>(f.begin(sub), f.end(sub), order(sub), g, s.below(1000), s.flip(), "begin(subset)"); break;
    case 4: walkConst<T>(base.cbegin(), base.cend(), order(d.dw), g, "base class cbegin()"); break;
    case 5: walkConst<T>(base.cbegin(sub), base.cend(sub), order(sub), g, "base class cbegin(subset)"); break;
    case 6: { WritableField<T> &w = f; walkWrite<T>(w.begin(), w.end(), order(d.dw), g, s.below(1000), true, "base class begin()"); break; }
    default: { WritableField<T> &w = f; walkWrite<T>(w.begin(sub), w.end(sub), order(sub), g, s.below(1000), true, "base class begin(subset)"); break; }
    }
    if (!(sub == d.dw)) { c.label("proper-subset"); }
  }
  checkGrid<T>(f, g, "iter-write", "after iteration");
  // grains partition the data window
  size_t ng = f.numGrains();
  Grid<int> cover; cover.reset(d.dw, 0);
  for (size_t i = 0; i < ng; ++i) {
    Box3i b; f.getGrainBounds(i, b);
    PBT_CHECK(!b.isEmpty(), "grain-empty", "grain " << i << " is empty: " << bs(b));
    forVox(b, [&](int x, int y, int z) {
      PBT_CHECK(d.dw.intersects(V3i(x, y, z)), "grain-outside", "grain " << i << " " << bs(b) << " leaves the data window " << bs(d.dw));
      cover.at(x, y, z)++;
    });
  }
  forVox(d.dw, [&](int x, int y, int z) { PBT_CHECK(cover.at(x, y, z) == 1, "grain-cover", "voxel (" << x << "," << y << "," << z << ") is in " << cover.at(x, y, z) << " grains"); });
  c.nontrivial = vol(d.dw) > 4;
  if (!(d.dw.min == V3i(0))) { c.label("offset-window"); }
}

PBT_TEST(iter_dense, 30000, 300000, "dense field of generated definition and content, 1-5 const/writing walks over the window or a sub-box, order and values against the array, grains partition the window; non-trivial = more than 4 voxels")
{
  int t = (int)s.below(6); c << "Dense<" << typeName(t) << ">";
  withAny(t, [&](auto v) { DenseField<decltype(v)> f; iterCase(s, c, f, 8); });
}
template <class T> void blockWalk(Src &s, Ctx &c, SparseField<T> &f)
{
  // blocks in order; bounding boxes partition the window and agree with block lookup
  std::vector<V3i> o = order(zbox(f.blockRes()));
  size_t n = 0;
  Box3i dw = f.dataWindow();
  Grid<int> cover; cover.reset(dw, 0);
  typename SparseField<T>::block_iterator i = f.blockBegin(), e = f.blockEnd();
  for (; i != e; ++i, ++n) {
    PBT_CHECK(n < o.size(), "block-overrun", "too many blocks");
    PBT_CHECK(V3i(i.x, i.y, i.z) == o[n], "block-order", "block step " << n);
    Box3i b = i.blockBoundingBox();
    PBT_CHECK(!b.isEmpty() && dw.intersects(b.min) && dw.intersects(b.max), "block-bbox", "block " << vs(o[n]) << " bounding box " << bs(b) << " outside the data window " << bs(dw));
    forVox(b, [&](int x, int y, int z) {
      cover.at(x, y, z)++;
      int oi = x, oj = y, ok = z, bi, bj, bk;
      f.applyDataWindowOffset(oi, oj, ok);
      f.getBlockCoord(oi, oj, ok, bi, bj, bk);
      PBT_CHECK(V3i(bi, bj, bk) == o[n], "block-bbox", "voxel (" << x << "," << y << "," << z << ") is in block (" << bi << "," << bj << "," << bk << "), not in " << vs(o[n]) << " with bounding box " << bs(b));
    });
  }
  PBT_CHECK(n == o.size(), "block-short", "visited " << n << " of " << o.size() << " blocks");
  forVox(dw, [&](int x, int y, int z) { PBT_CHECK(cover.at(x, y, z) == 1, "block-cover", "voxel (" << x << "," << y << "," << z << ") is in " << cover.at(x, y, z) << " block bounding boxes"); });
}
PBT_TEST(iter_sparse, 30000, 300000, "the same walks over a sparse field with block order 1-5 and partly unallocated blocks, plus the block iterator; non-trivial = more than 4 voxels")
{
  int t = (int)s.below(6), o = (int)s.range(1, 5); c << "Sparse<" << typeName(t) << "> order " << o;
  withAny(t, [&](auto v) { SparseField<decltype(v)> f; f.setBlockOrder(o); iterCase(s, c, f, 14); blockWalk(s, c, f); });
}

//! Const iteration over an unallocated region leaves it unallocated
PBT_TEST(iter_noalloc, 6000, 60000, "const walks over a sparse field; the set of allocated blocks must not change; non-trivial = some block is unallocated")
{
  int o = (int)s.range(1, 4);
  SparseField<float> f; f.setBlockOrder(o);
  Def d = genDef(s, 14); f.setSize(d.ext, d.dw); f.clear(1.5f);
  int n = (int)s.range(0, 4);
  for (int q = 0; q < n; ++q) { V3i p = genVoxel(s, d.dw); f.lvalue(p.x, p.y, p.z) = 2.0f; }
  std::vector<bool> a; V3i br = f.blockRes(); bool some = false;
  forVox(zbox(br), [&](int i, int j, int k) { a.push_back(f.blockIsAllocated(i, j, k)); if (!a.back()) { some = true; } });
  Box3i sub = genSub(s, d.dw);
  double sum = 0;
  for (SparseField<float>::const_iterator i = f.cbegin(sub), e = f.cend(sub); i != e; ++i) { sum += *i; }
  forVox(d.dw, [&](int i, int j, int k) { sum += f.value(i, j, k) + f.fastValue(i, j, k); });
  size_t q = 0;
  forVox(zbox(br), [&](int i, int j, int k) { PBT_CHECK(f.blockIsAllocated(i, j, k) == a[q], "read-allocates", "block (" << i << "," << j << "," << k << ") changed allocation by reading"); ++q; });
  c << "dw" << bs(d.dw) << " order " << o << " writes " << n;
  c.nontrivial = some;
}

PBT_TEST(iter_mac, 15000, 150000, "component iterators of a staggered field over the window and over voxel sub-boxes: faces of the box, one more along the component axis, x fastest, reading and writing; non-trivial = more than 4 voxels")
{
  typedef V3f T;
  MACField<T> f; Def d = genDef(s, 6); f.setSize(d.ext, d.dw); f.clear(T(0));
  uint64_t sd = s.below(1000);
  Grid<float> g[3];
  for (int a = 0; a < 3; ++a) {
    Box3i b = d.dw; b.max[a] += 1; g[a].reset(b, 0);
    forVox(b, [&](int i, int j, int k) { float v = mkVal<float>(vhash(sd + a, i, j, k)); g[a].at(i, j, k) = v;
      if (a == 0) { f.u(i, j, k) = v; } else if (a == 1) { f.v(i, j, k) = v; } else { f.w(i, j, k) = v; } });
  }
  c << "MAC dw" << bs(d.dw);
  const MACField<T> &cf = f;
  int n = (int)s.range(1, 4);
  for (int q = 0; q < n; ++q) {
    int a = (int)s.below(3); MACComponent m = (MACComponent)a;
    Box3i sub = genSub(s, d.dw), fsub = sub; fsub.max[a] += 1;
    switch (s.below(4)) {
    case 0: walkConst<float>(cf.cbegin_comp(m), cf.cend_comp(m), order(g[a].b), g[a], "cbegin_comp()"); break;
    case 1: walkConst<float>(cf.cbegin_comp(m, sub), cf.cend_comp(m, sub), order(fsub), g[a], "cbegin_comp(subset)"); break;
    case 2: walkWrite<float>(f.begin_comp(m), f.end_comp(m), order(g[a].b), g[a], s.below(1000), true, "begin_comp()"); break;
    default: walkWrite<float>(f.begin_comp(m, sub), f.end_comp(m, sub), order(fsub), g[a], s.below(1000), true, "begin_comp(subset)"); break;
    }
  }
  forVox(g[0].b, [&](int i, int j, int k) { PBT_CHECK(cf.u(i, j, k) == g[0].at(i, j, k), "mac-iter-write", "u(" << i << "," << j << "," << k << ")"); });
  forVox(g[1].b, [&](int i, int j, int k) { PBT_CHECK(cf.v(i, j, k) == g[1].at(i, j, k), "mac-iter-write", "v(" << i << "," << j << "," << k << ")"); });
  forVox(g[2].b, [&](int i, int j, int k) { PBT_CHECK(cf.w(i, j, k) == g[2].at(i, j, k), "mac-iter-write", "w(" << i << "," << j << "," << k << ")"); });
  // generic const iteration gives the centred value
  Grid<T> cv; cv.reset(d.dw, T(0));
  forVox(d.dw, [&](int i, int j, int k) { cv.at(i, j, k) = f.value(i, j, k); });
  const Field<T> &base = f;
  walkConst<T>(base.cbegin(), base.cend(), order(d.dw), cv, "MAC base cbegin");
  c.nontrivial = vol(d.dw) > 4;
}

//! An inverted sub-box is an empty range
PBT_TEST(iter_emptyrange, 5000, 50000, "begin and end of an inverted sub-box are equal for every iterator kind; non-trivial = always")
{
  Def d = genDef(s, 8);
  DenseField<float> df; df.setSize(d.ext, d.dw); df.clear(1);
  SparseField<float> sf; sf.setBlockOrder((int)s.range(1, 4)); sf.setSize(d.ext, d.dw); sf.clear(1);
  Box3i sub = genSub(s, d.dw);
  int a = (int)s.below(3);
  if (sub.min[a] == d.dw.min[a]) { sub.min[a] += 1; }
  sub.max[a] = sub.min[a] - 1;
  c << bs(d.dw) << " empty " << bs(sub);
  const Field<float> &b1 = df;
  PBT_CHECK(b1.cbegin(sub) == b1.cend(sub), "empty-range", "base");
  int n = 0;
  for (DenseField<float>::const_iterator i = df.cbegin(sub), e = df.cend(sub); i != e && n < 10; ++i) { ++n; }
  PBT_CHECK(n == 0, "empty-range", "dense const iterator visits an empty range");
  {
    for (SparseField<float>::const_iterator i = sf.cbegin(sub), e = sf.cend(sub); i != e && n < 10; ++i) { ++n; }
    PBT_CHECK(n == 0, "empty-range", "sparse const iterator visits an empty range");
  }
  c.nontrivial = true;
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;
