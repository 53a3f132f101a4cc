// C03: block management of sparse fields never changes what is stored.
#include "common.h"
using namespace fx;

//! Reference: voxel values plus which blocks are allocated and their empty value
template <class T> struct Model
{
  Grid<T> g; int order; V3i br; std::vector<char> alloc; std::vector<T> empty;
  void reset(const Box3i &dw, int o, const T &v)
  {
    g.reset(dw, v); order = o; V3i r = dims(dw);
    br = V3i((r.x + (1 << o) - 1) >> o, (r.y + (1 << o) - 1) >> o, (r.z + (1 << o) - 1) >> o);
    alloc.assign((size_t)br.x * br.y * br.z, 0); empty.assign(alloc.size(), v);
  }
  size_t bid(int i, int j, int k) const
  { i -= g.b.min.x; j -= g.b.min.y; k -= g.b.min.z; return ((size_t)(k >> order) * br.y + (j >> order)) * br.x + (i >> order); }
  Box3i blockBox(size_t id) const
  {
    V3i b(id % br.x, (id / br.x) % br.y, id / br.x / br.y);
    Box3i r; r.min = g.b.min + b * (1 << order);
    for (int d = 0; d < 3; ++d) { r.max[d] = std::min(g.b.max[d], r.min[d] + (1 << order) - 1); }
    return r;
  }
  void write(const V3i &p, const T &v) { g.at(p.x, p.y, p.z) = v; alloc[bid(p.x, p.y, p.z)] = 1; }
  void release(size_t id, const T &v) { alloc[id] = 0; empty[id] = v; forVox(blockBox(id), [&](int i, int j, int k) { g.at(i, j, k) = v; }); }
};

template <class T> void verify(const SparseField<T> &f, const Model<T> &m, const char *what)
{
  PBT_CHECK(f.blockOrder() == m.order && f.blockSize() == 1 << m.order, "block-order", what << ": blockOrder " << f.blockOrder());
  PBT_CHECK(f.blockRes() == m.br, "block-res", what << ": blockRes " << vs(f.blockRes()) << " expected " << vs(m.br));
  checkGrid<T>(f, m.g, "voxel-value", what);
  size_t id = 0, na = 0;
  for (int bk = 0; bk < m.br.z; ++bk) for (int bj = 0; bj < m.br.y; ++bj) for (int bi = 0; bi < m.br.x; ++bi, ++id) {
    PBT_CHECK(f.blockIndexIsValid(bi, bj, bk), "block-index", what << ": valid block index refused");
    PBT_CHECK(f.blockIsAllocated(bi, bj, bk) == (bool)m.alloc[id], "block-alloc", what << ": block (" << bi << "," << bj << "," << bk << ") allocated = " << f.blockIsAllocated(bi, bj, bk));
    if (!m.alloc[id]) {
      PBT_CHECK(same<T>(f.getBlockEmptyValue(bi, bj, bk), m.empty[id]), "block-empty", what << ": empty value of block (" << bi << "," << bj << "," << bk << ") is " << vs(f.getBlockEmptyValue(bi, bj, bk)) << " expected " << vs(m.empty[id]));
    } else { ++na; PBT_CHECK(f.blockData(bi, bj, bk) != NULL, "block-data", what << ": no data pointer of allocated block"); }
    PBT_CHECK((size_t)f.blockId(bi, bj, bk) == id, "block-id", what << ": blockId");
  }
  PBT_CHECK(!f.blockIndexIsValid(-1, 0, 0) && !f.blockIndexIsValid(0, -1, 0) && !f.blockIndexIsValid(0, 0, -1) &&
            !f.blockIndexIsValid(m.br.x, 0, 0) && !f.blockIndexIsValid(0, m.br.y, 0) && !f.blockIndexIsValid(0, 0, m.br.z), "block-index", what << ": invalid block index accepted");
  size_t bv = (size_t)1 << (3 * m.order);
  PBT_CHECK(f.voxelCount() == na * bv, "block-voxelcount", what << ": voxelCount " << f.voxelCount() << " with " << na << " allocated blocks of " << bv);
  PBT_CHECK(f.memSize() >= (long long)(na * bv * sizeof(T)), "block-memsize", what << ": memSize below the allocated data");
  PBT_CHECK(f.memSize() <= (long long)(na * bv * sizeof(T) + m.alloc.size() * 128 + 4096), "block-memsize", what << ": memSize " << f.memSize() << " counts blocks that are not allocated (" << na << " are)");
  forVox(m.g.b, [&](int i, int j, int k) {
    PBT_CHECK(f.voxelIsInAllocatedBlock(i, j, k) == (bool)m.alloc[m.bid(i, j, k)], "voxel-in-alloc", what << ": voxelIsInAllocatedBlock(" << i << "," << j << "," << k << ")");
  });
  PBT_CHECK(f.numGrains() == m.alloc.size(), "block-grains", what << ": numGrains");
  for (size_t i = 0; i < m.alloc.size(); ++i) {
    Box3i b; bool whole = f.getGrainBounds(i, b);
    PBT_CHECK(b == m.blockBox(i), "block-grains", what << ": grain " << i << " is " << bs(b) << " expected " << bs(m.blockBox(i)));
    PBT_CHECK(whole == (vol(b) == bv), "block-grains", what << ": grain " << i << " reported " << (whole ? "whole" : "partial"));
  }
}

//! User-supplied release predicate: every valid voxel equals a given value
template <class T> struct EqualTo
{
  T v; T repl;
  bool check(const Sparse::SparseBlock<T> &b, T &ret, const V3i &valid, const V3i &size)
  {
    for (int z = 0; z < valid.z; ++z) for (int y = 0; y < valid.y; ++y) for (int x = 0; x < valid.x; ++x) {
      if (!same<T>(b.data[((size_t)z * size.y + y) * size.x + x], v)) { return false; }
    }
    ret = repl; return true;
  }
};

template <class T> void history(Src &s, Ctx &c)
{
  SparseField<T> f; Model<T> m;
  int order = (int)s.range(1, 5);
  f.setBlockOrder(order);
  Def d = genDef(s, order >= 4 ? 20 : 12); f.setSize(d.ext, d.dw);
  T bg = s.flip() ? mkConst<T>(0) : mkVal<T>(s.below(50));
  f.clear(bg); m.reset(d.dw, order, bg);
  c << "Sparse order " << order << " ext" << bs(d.ext) << " dw" << bs(d.dw) << " bg " << vs(bg);
  int n = (int)s.range(1, 16), rel = 0, relSome = 0;
  // few distinct values, so that uniform blocks are common
  std::vector<T> pal; for (int i = 0; i < 4; ++i) { pal.push_back(mkVal<T>(s.below(1000))); }
  for (int q = 0; q < n; ++q) {
    switch (s.weighted({4, 4, 4, 3, 3, 1, 1, 2, 2})) {
    case 0: { V3i p = genVoxel(s, d.dw); T v = s.pick(pal); f.lvalue(p.x, p.y, p.z) = v; m.write(p, v); c << " w" << vs(p); break; }
    case 1: { Box3i b = genSub(s, d.dw); T v = s.pick(pal); forVox(b, [&](int i, int j, int k) { f.fastLValue(i, j, k) = v; m.write(V3i(i, j, k), v); }); c << " const" << bs(b); break; }
    case 2: { // fill a whole block, possibly with one exception
      size_t id = s.below(m.alloc.size()); Box3i b = m.blockBox(id); T v = s.pick(pal);
      forVox(b, [&](int i, int j, int k) { f.lvalue(i, j, k) = v; m.write(V3i(i, j, k), v); });
      if (s.chance(40)) { V3i p = s.flip() ? b.max : genVoxel(s, b); T w = mkVal<T>(s.below(1000)); f.lvalue(p.x, p.y, p.z) = w; m.write(p, w); }
      c << " block" << bs(b); break; }
    case 3: { // release uniform blocks
      int cnt = 0;
      for (size_t id = 0; id < m.alloc.size(); ++id) { if (!m.alloc[id]) { continue; }
        Box3i b = m.blockBox(id); T v = m.g.at(b.min.x, b.min.y, b.min.z); bool u = true;
        forVox(b, [&](int i, int j, int k) { if (!same(m.g.at(i, j, k), v)) { u = false; } });
        if (u) { m.release(id, v); ++cnt; } }
      int got = f.releaseBlocks(Sparse::CheckAllEqual<T>());
      PBT_CHECK(got == cnt, "release-count", "releaseBlocks(CheckAllEqual) released " << got << " blocks, " << cnt << " are uniform");
      c << " releaseEqual=" << cnt; ++rel; relSome += cnt; break; }
    case 4: { // release blocks beyond a band
      double lim = s.below(2000) / 16.0; T lv = mkConst<T>(lim); int cnt = 0;
      for (size_t id = 0; id < m.alloc.size(); ++id) { if (!m.alloc[id]) { continue; }
        Box3i b = m.blockBox(id); T v = m.g.at(b.min.x, b.min.y, b.min.z); bool all = true;
        forVox(b, [&](int i, int j, int k) { const T &x = m.g.at(i, j, k); for (int a = 0; a < Comp<T>::n; ++a) { if (fabs(Comp<T>::get(x, a)) < lim) { all = false; } } });
        if (all) { m.release(id, v); ++cnt; } }
      int got = f.releaseBlocks(Sparse::CheckMaxAbs<T>(lv));
      PBT_CHECK(got == cnt, "release-count", "releaseBlocks(CheckMaxAbs " << lim << ") released " << got << " blocks, expected " << cnt);
      c << " releaseAbs" << lim << "=" << cnt; ++rel; relSome += cnt; break; }
    case 5: { T v = s.pick(pal); f.clear(v); m.reset(d.dw, m.order, v); c << " clear"; break; }
    case 6: { int o = (int)s.range(1, 5); T v = s.pick(pal); f.setBlockOrder(o); f.clear(v); m.reset(d.dw, o, v); c << " order" << o; break; }
    case 7: { size_t id = s.below(m.alloc.size()); T v = s.pick(pal); V3i b(id % m.br.x, (id / m.br.x) % m.br.y, id / m.br.x / m.br.y);
      f.setBlockEmptyValue(b.x, b.y, b.z, v); m.release(id, v); c << " setEmpty" << vs(b); break; }
    default: { EqualTo<T> p; p.v = s.pick(pal); p.repl = p.v; int cnt = 0;
      for (size_t id = 0; id < m.alloc.size(); ++id) { if (!m.alloc[id]) { continue; } bool u = true;
        forVox(m.blockBox(id), [&](int i, int j, int k) { if (!same(m.g.at(i, j, k), p.v)) { u = false; } });
        if (u) { m.release(id, p.v); ++cnt; } }
      int got = f.releaseBlocks(p);
      PBT_CHECK(got == cnt, "release-count", "releaseBlocks(user predicate) released " << got << " blocks, expected " << cnt);
      ++rel; relSome += cnt; break; }
    }
    if (s.chance(30)) { verify(f, m, "during history"); }
  }
  verify(f, m, "end of history");
  if (relSome) { c.label("released-some"); }
  c.nontrivial = rel > 0;
}
PBT_TEST(blocks, 60000, 700000, "histories of voxel and block fills, clear, block order changes, empty values and releaseBlocks (uniform, band and user predicates) over a sparse field of one of six types; values and allocation state against a model after steps; non-trivial = at least one release")
{
  int t = (int)s.below(6); c << typeName(t) << " ";
  withAny(t, [&](auto v) { history<decltype(v)>(s, c); });
}

//! The same writes give the same field under every block order
PBT_TEST(order_independent, 20000, 200000, "the same write/release history under two block orders and on a dense field gives the same voxels; non-trivial = at least one write")
{
  typedef float T;
  SparseField<T> a, b; DenseField<T> e;
  int oa = (int)s.range(1, 6), ob = (int)s.range(1, 6);
  a.setBlockOrder(oa); b.setBlockOrder(ob);
  Def d = genDef(s, 16); a.setSize(d.ext, d.dw); b.setSize(d.ext, d.dw); e.setSize(d.ext, d.dw);
  T bg = mkVal<T>(s.below(100)); a.clear(bg); b.clear(bg); e.clear(bg);
  c << "orders " << oa << "," << ob << " dw" << bs(d.dw);
  int n = (int)s.range(1, 12);
  for (int q = 0; q < n; ++q) {
    if (s.chance(70)) { Box3i x = genSub(s, d.dw); uint64_t sd = s.below(1000); bool noise = s.flip();
      forVox(x, [&](int i, int j, int k) { T v = noise ? mkVal<T>(vhash(sd, i, j, k)) : mkVal<T>(sd); a.lvalue(i, j, k) = v; b.lvalue(i, j, k) = v; e.lvalue(i, j, k) = v; }); }
    else { a.releaseBlocks(Sparse::CheckAllEqual<T>()); b.releaseBlocks(Sparse::CheckAllEqual<T>()); }
  }
  forVox(d.dw, [&](int i, int j, int k) {
    PBT_CHECK(a.value(i, j, k) == e.value(i, j, k) && b.value(i, j, k) == e.value(i, j, k), "order-dependent", "voxel (" << i << "," << j << "," << k << ") is " << a.value(i, j, k) << " / " << b.value(i, j, k) << " / dense " << e.value(i, j, k));
  });
  c.nontrivial = true;
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;
