// C17: sparse fields read under a memory limit behave exactly like fully read ones, within the limit.
#include "io.h"
#include <unistd.h>
using namespace fx;

namespace {
SparseFileManager &mgr() { return SparseFileManager::singleton(); }
//! A dynamically read field next to the same field in memory
struct Slot
{
  int file, type; size_t blockBytes;
  virtual ~Slot() {}
  virtual bool dynamic() = 0;
  virtual void look(Src &s, Ctx &c) = 0;         // one read-only operation
  virtual void mutate(Src &s, Ctx &c) = 0;       // one changing operation
  virtual Slot *copy(Src &s) = 0;
  virtual bool assign(Slot *o) = 0;
  virtual void *object() = 0;
  virtual size_t loaded() = 0, pinned() = 0;     // bytes
  virtual void dropIters() = 0;
  virtual void compare(const std::string &what) = 0;
  virtual AnyField any() = 0;
  virtual AnyField model() = 0;
};
template <class T> struct SlotT : Slot
{
  typedef SparseField<T> F; typedef typename F::const_iterator It;
  typename F::Ptr d, m;
  std::vector<std::unique_ptr<It> > it; std::vector<Box3i> itBox;
  bool isDyn, shared;   // shared: the very object a later read of the layer returns while it lives
  void unshare() { if (shared) { d.reset(new F(*d)); shared = false; } }
  SlotT(typename F::Ptr a, typename F::Ptr b, int f, int t) : d(a), m(b) { file = f; type = t; isDyn = true; shared = false; update(); }
  ~SlotT() { dropIters(); }
  void update() { blockBytes = sizeof(T) << (3 * m->blockOrder()); }
  bool dynamic() { return isDyn; }
  void dropIters() { it.clear(); itBox.clear(); }
  void at(int i, int j, int k, const T &v, const char *how)
  {
    T e = m->value(i, j, k);
    if (!bitSame(v, e)) { std::ostringstream o; o << "voxel (" << i << "," << j << "," << k << ") is " << vs(v) << " by " << how << ", " << vs(e) << " in a full read"; PBT_FAIL("dyn-voxel", o.str()); }
  }
  bool end(size_t q) { It e = d->cend(itBox[q]); return !(*it[q] != e); }
  void deref(Src &s, size_t q) { if (end(q)) { return; } if (s.flip()) { at(it[q]->x, it[q]->y, it[q]->z, **it[q], "iterator"); } else { at(it[q]->x, it[q]->y, it[q]->z, *it[q]->operator->(), "iterator"); } }
  Box3i subBox(Src &s)
  {
    Box3i w = m->dataWindow(), b;
    for (int a = 0; a < 3; ++a) { b.min[a] = (int)s.range(w.min[a], w.max[a]); b.max[a] = (int)s.range(b.min[a], w.max[a]); }
    return b;
  }
  void look(Src &s, Ctx &c)
  {
    Box3i w = m->dataWindow();
    switch (s.weighted({4, 3, 3, 3, 4, 4, 2, 2, 1})) {
    case 0: { c << " value"; int n = (int)s.range(1, 8); for (int q = 0; q < n; ++q) { V3i p; for (int a = 0; a < 3; ++a) { p[a] = (int)s.range(w.min[a], w.max[a]); } at(p.x, p.y, p.z, s.flip() ? d->value(p.x, p.y, p.z) : d->fastValue(p.x, p.y, p.z), "value()"); } break; }
    case 1: {   // whole or part, through iterators
      bool whole = s.flip(); Box3i b = whole ? w : subBox(s); c << " iterate" << bs(b);
      It i = whole ? d->cbegin() : d->cbegin(b), e = whole ? d->cend() : d->cend(b);
      int skip = (int)s.range(1, 3), n = 0; size_t seen = 0;
      V3i p = b.min;
      for (; i != e; ++i, ++n) {
        PBT_CHECK(i.x == p.x && i.y == p.y && i.z == p.z, "dyn-iter", "iterator is at (" << i.x << "," << i.y << "," << i.z << "), expected " << vs(p));
        if (n % skip == 0) { at(i.x, i.y, i.z, *i, "iterator"); }
        ++seen; if (++p.x > b.max.x) { p.x = b.min.x; if (++p.y > b.max.y) { p.y = b.min.y; ++p.z; } }
      }
      PBT_CHECK(seen == vol(b), "dyn-iter", "iterator over " << bs(b) << " made " << seen << " steps");
      break;
    }
    case 2: {   // samplers
      c << " sample"; LinearSparseFieldInterp<T> si; LinearFieldInterp<T> li; CubicFieldInterp<T> ci;
      int n = (int)s.range(1, 5);
      for (int q = 0; q < n; ++q) {
        V3d p; for (int a = 0; a < 3; ++a) { p[a] = w.min[a] - 1 + s.unit() * (w.max[a] - w.min[a] + 3); }
        T x, y; int h = (int)s.below(3);
        if (h == 0) { x = si.sample(*d, p); y = si.sample(*m, p); } else if (h == 1) { x = li.sample(*d, p); y = li.sample(*m, p); } else { x = ci.sample(*d, p); y = ci.sample(*m, p); }
        bool same = bitSame(x, y); for (int a = 0; a < Comp<T>::n; ++a) { if (std::isnan((double)Comp<T>::get(x, a)) && std::isnan((double)Comp<T>::get(y, a))) { same = true; } }
        PBT_CHECK(same, "dyn-sample", "sample at " << vs(p) << " is " << vs(x) << ", " << vs(y) << " in a full read");
      }
      break;
    }
    case 3: {   // make an iterator that stays
      Box3i b = s.flip() ? w : subBox(s); c << " iter" << bs(b);
      if (it.size() < 4) { it.emplace_back(new It(d->cbegin(b))); itBox.push_back(b); if (s.flip()) { deref(s, it.size() - 1); } }
      break;
    }
    case 4: {   // move a living iterator
      if (it.empty()) { break; } size_t q = s.below(it.size()); int n = (int)s.range(0, 40);
      c << " step" << n;
      for (int i = 0; i < n && !end(q); ++i) { ++*it[q]; if (s.chance(40)) { deref(s, q); } }
      deref(s, q); break;
    }
    case 5: {   // copy, assign or drop a living iterator
      if (it.empty()) { break; } size_t q = s.below(it.size());
      switch (s.below(4)) {
      case 0: c << " copyIter"; if (it.size() < 4) { it.emplace_back(new It(*it[q])); itBox.push_back(itBox[q]); deref(s, it.size() - 1); } break;
      case 1: { size_t r = s.below(it.size()); c << " assignIter" << r << "=" << q; *it[r] = *it[q]; itBox[r] = itBox[q]; deref(s, r); break; }
      case 2: c << " dropIter"; it.erase(it.begin() + q); itBox.erase(itBox.begin() + q); break;
      default: c << " tmpIter"; { It t(*it[q]); if (!end(q)) { at(t.x, t.y, t.z, *t, "iterator copy"); } } deref(s, q);
      }
      break;
    }
    case 6: {   // blocks
      c << " blocks"; V3i r = m->blockRes(); PBT_CHECK(d->blockRes() == r && d->blockOrder() == m->blockOrder() && d->voxelCount() == m->voxelCount() && d->extents() == m->extents() && d->dataWindow() == w, "dyn-blocks", "block structure differs from a full read");
      forVox(zbox(r), [&](int i, int j, int k) {
        PBT_CHECK(d->blockIsAllocated(i, j, k) == m->blockIsAllocated(i, j, k), "dyn-blocks", "allocation of block (" << i << "," << j << "," << k << ") differs from a full read");
        T x = d->getBlockEmptyValue(i, j, k), y = m->getBlockEmptyValue(i, j, k); PBT_CHECK(m->blockIsAllocated(i, j, k) || bitSame(x, y), "dyn-blocks", "empty value of block (" << i << "," << j << "," << k << ") differs from a full read");
      });
      break;
    }
    case 7: { c << " compare"; compare("compare"); break; }
    default: {   // explicit pinning of a block
      c << " pin"; V3i r = m->blockRes(); int i = (int)s.below(r.x), j = (int)s.below(r.y), k = (int)s.below(r.z);
      if (!isDyn || !m->blockIsAllocated(i, j, k)) { break; }
      int id = d->blockId(i, j, k); d->incBlockRef(id); d->activateBlock(id);
      const T *p = d->blockData(i, j, k), *e = m->blockData(i, j, k); PBT_CHECK(p, "dyn-pin", "an activated block has no data");
      Box3i v = w; for (int q = 0; q < 3; ++q) { V3i z = w.min; z[q] = (int)s.range(w.min[q], w.max[q]); at(z.x, z.y, z.z, d->value(z.x, z.y, z.z), "value()"); }   // pressure on the cache
      int side = 1 << m->blockOrder(); bool same = d->blockData(i, j, k) == p;
      PBT_CHECK(same, "dyn-pin", "a referenced block was moved");
      for (int z = 0; z < side; ++z) { for (int y = 0; y < side; ++y) { for (int x = 0; x < side; ++x) {
        V3i q = V3i(i, j, k) * side + V3i(x, y, z) + w.min; if (q.x > w.max.x || q.y > w.max.y || q.z > w.max.z) { continue; }
        same = bitSame(p[x + y * side + z * side * side], e[x + y * side + z * side * side]); PBT_CHECK(same, "dyn-pin", "block data differ from a full read");
      } } }
      d->decBlockRef(id);
    }
    }
  }
  void mutate(Src &s, Ctx &c)
  {
    dropIters(); unshare();
    switch (s.weighted({4, 1, 1, 1, 1, 2})) {
    case 0: { V3i r = m->blockRes(); int i = (int)s.below(r.x), j = (int)s.below(r.y), k = (int)s.below(r.z); T v = mkVal<T>(s.below(1000)); c << " setEmpty"; d->setBlockEmptyValue(i, j, k, v); m->setBlockEmptyValue(i, j, k, v); return; }
    case 5: { c << " release"; int x, y; if (s.flip()) { x = d->releaseBlocks(Sparse::CheckAllEqual<T>()); y = m->releaseBlocks(Sparse::CheckAllEqual<T>()); } else { x = d->releaseBlocks(Sparse::CheckMaxAbs<T>(T(50))); y = m->releaseBlocks(Sparse::CheckMaxAbs<T>(T(50))); } PBT_CHECK(x == y, "dyn-release", x << " blocks released, " << y << " in a full read"); return; }
    case 1: { T v = mkVal<T>(s.below(1000)); c << " clear"; d->clear(v); m->clear(v); break; }
    case 2: { int o = (int)s.range(1, 3); c << " order" << o; d->setBlockOrder(o); m->setBlockOrder(o); d->clear(mkConst<T>(1)); m->clear(mkConst<T>(1)); break; }
    case 3: { Def q = genDef(s, 8); c << " size"; d->setSize(q.ext, q.dw); m->setSize(q.ext, q.dw); d->clear(mkConst<T>(2)); m->clear(mkConst<T>(2)); break; }
    default: { c << " fromMemory"; F t(*m); forVox(t.dataWindow(), [&](int i, int j, int k) { if ((i + j + k) % 3 == 0) { t.lvalue(i, j, k) = mkVal<T>(i + 7 * j + 31 * k + 100); } }); *d = t; *m = t; }
    }
    // From here on, it is a field in memory
    isDyn = false; update();
    PBT_CHECK(!d->isDynamicLoad(), "dyn-owned", "a field with contents of its own still counts as dynamically loaded");
    Box3i w = m->dataWindow(); int n = (int)s.range(1, 5);
    for (int q = 0; q < n; ++q) { V3i p; for (int a = 0; a < 3; ++a) { p[a] = (int)s.range(w.min[a], w.max[a]); } T v = mkVal<T>(s.below(1000)); d->lvalue(p.x, p.y, p.z) = v; m->lvalue(p.x, p.y, p.z) = v; }
  }
  Slot *copy(Src &s)
  {
    typename F::Ptr k, n(new F(*m));
    if (s.flip()) { k = field_dynamic_cast<F>(d->clone()); } else { k.reset(new F(*d)); }
    SlotT *r = new SlotT(k, n, file, type); r->isDyn = isDyn; return r;
  }
  bool assign(Slot *o)
  {
    SlotT *p = dynamic_cast<SlotT *>(o); if (!p) { return false; }
    if (p == this) { return true; } dropIters(); unshare(); *d = *p->d; *m = *p->m; isDyn = p->isDyn; file = p->file; update(); return true;
  }
  void *object() { return d.get(); }
  size_t loaded() { if (!isDyn) { return 0; } size_t n = 0; V3i r = m->blockRes(); forVox(zbox(r), [&](int i, int j, int k) { n += d->blockIsAllocated(i, j, k) && d->blockData(i, j, k); }); return n * blockBytes; }
  size_t pinned() { return isDyn ? it.size() * blockBytes : 0; }
  void compare(const std::string &what) { cmpVoxels<T>(*m, *d, what); cmpSparse<T>(*m, *d, what); }
  AnyField any() { AnyField a; a.f = d; a.cls = kSparse; a.type = type; a.vox = a.blocks = 0; return a; }
  AnyField model() { AnyField a; a.f = m; a.cls = kSparse; a.type = type; a.vox = a.blocks = 0; return a; }
};
typedef std::vector<std::unique_ptr<Slot> > Slots;

struct Layer { AnyField f; std::string name; };
struct World
{
  Ctx &c; std::vector<std::vector<Layer> > files; std::vector<bool> og;
  World(Ctx &c_) : c(c_) {}
  std::string fn(int i) { return c.scratch + "/f" + std::to_string(i) + ".f3d"; }
  void write(Src &s, int i)
  {
    unlink(fn(i).c_str()); create(s, i);
  }
  void create(Src &s, int i)
  {
    files[i].clear(); og[i] = s.flip(); Field3DOutputFile::useOgawa(og[i]);
    Field3DOutputFile out; PBT_CHECK(out.create(fn(i)), "dyn-create", "create() failed");
    int n = (int)s.range(1, 2);
    for (int l = 0; l < n; ++l) {
      GenOpt o; o.classes = 1u << kSparse; o.maxRes = 14; o.maxOrder = 3;
      Layer y; y.f = genAny(s, o); y.name = "l" + std::to_string(l);
      c << " f" << i << (og[i] ? "(Ogawa) " : "(HDF5) ") << y.f.desc() << " " << y.f.blocks << " blocks;";
      PBT_CHECK(writeAny(out, "p", y.name, y.f), "dyn-write", "writing failed"); files[i].push_back(y);
    }
    PBT_CHECK(out.close(), "dyn-close", "close() failed");
  }
  Slot *read(Src &s, int i)
  {
    const Layer &y = files[i][s.below(files[i].size())];
    Field3DInputFile in; PBT_CHECK(in.open(fn(i)), "dyn-open", "open() failed");
    mgr().setLimitMemUse(true);
    auto got = readAny(in, "p", y.name, y.f.type);
    PBT_CHECK(got.size() == 1 && got[0], "dyn-read", "reading the layer gave " << got.size() << " fields");
    Slot *r = 0;
    withAny(y.f.type, [&](auto t) { typedef decltype(t) T; typename SparseField<T>::Ptr d = field_dynamic_cast<SparseField<T> >(got[0]), m = field_dynamic_cast<SparseField<T> >(y.f.f);
      PBT_CHECK(d, "dyn-read", "a " << got[0]->className() << " came back"); PBT_CHECK(d->isDynamicLoad(), "dyn-read", "the field was not read dynamically");
      r = new SlotT<T>(typename SparseField<T>::Ptr(new SparseField<T>(*d)), typename SparseField<T>::Ptr(new SparseField<T>(*m)), i, y.f.type);
      if (s.flip()) { typename SparseField<T>::Ptr own = d; static_cast<SlotT<T> *>(r)->d = own; static_cast<SlotT<T> *>(r)->shared = true; } });
    return r;
  }
};
void setLimit(size_t bytes) { mgr().setMaxMemUse(bytes / 1048576.0f); }
}

PBT_TEST_FRESH(history, 200, 4000, "1-2 files of either encoding with 1-2 sparse layers each, read under a memory limit from nothing to a few blocks: histories of up to 40 reads by value, iterator (kept, copied, assigned), sampler and pinned block, copies, assignments, changes, flushes, limit changes and file rewrites, each compared with the field in memory, with the bytes in use within the limit and what is pinned; non-trivial = at least one block was evicted and loaded again")
{
  IOReset rst; mgr().setLimitMemUse(true);
  World w(c); int nf = (int)s.range(1, 2); w.files.resize(nf); w.og.resize(nf);
  for (int i = 0; i < nf; ++i) { w.write(s, i); }
  size_t limit = s.chance(15) ? 0 : (size_t)(s.range(1, 24) * 512); setLimit(limit); c << " limit " << limit << ":";
  Slots sl;
  // reading caches live fields by name: keep at most one slot per read layer's field object alive, via copies
  int steps = (int)s.range(5, 40);
  long long total = 0; std::map<int, int> none;
  for (int q = 0; q < steps; ++q) {
    long long before = mgr().totalLoads();
    if (sl.empty()) { sl.emplace_back(w.read(s, (int)s.below(nf))); }
    size_t k = s.below(sl.size()); c << " #" << k; bool looked = false;
    switch (s.weighted({14, 2, 2, 1, 2, 1, 1, 1, 1, 1})) {
    case 0: sl[k]->look(s, c); looked = true; break;
    case 1: c << " read"; if (sl.size() < 4) { sl.emplace_back(w.read(s, (int)s.below(nf))); } break;
    case 2: c << " copy"; if (sl.size() < 4) { sl.emplace_back(sl[k]->copy(s)); } break;
    case 3: { size_t o = s.below(sl.size()); c << " assign" << o; sl[k]->assign(sl[o].get()); break; }
    case 4: c << " drop"; sl.erase(sl.begin() + k); break;
    case 5: sl[k]->mutate(s, c); break;
    case 6: c << " flush"; mgr().flushCache(); break;
    case 7: limit = s.chance(15) ? 0 : (size_t)(s.range(1, 24) * 512); c << " limit" << limit; setLimit(limit); break;
    case 8: c << " resetStats"; mgr().resetCacheStatistics(); PBT_CHECK(mgr().totalLoads() == 0, "dyn-stats", "totalLoads() is " << mgr().totalLoads() << " after a reset"); before = 0; break;
    default: {   // write the file again after everything from it is gone
      int f = (int)s.below(nf); c << " rewrite" << f;
      for (size_t z = sl.size(); z-- > 0;) { if (sl[z]->file == f || sl[z]->file < 0) { sl.erase(sl.begin() + z); } }
      w.create(s, f); before = mgr().totalLoads();
    }
    }
    size_t inUse = 0, pinned = 0, big = 0; std::set<void *> objs; for (auto &x : sl) { if (objs.insert(x->object()).second) { inUse += x->loaded(); } pinned += x->pinned(); big = std::max(big, x->blockBytes); }
    if (looked && mgr().totalLoads() > before) {
      // what a load may leave behind: the limit, or what is pinned and the block itself (a pinned block counts as one more)
      PBT_CHECK(inUse <= std::max(limit, pinned + 2 * big), "dyn-limit", inUse << " bytes of blocks in use; the limit is " << limit << " and " << pinned << " are pinned");
      if (total > 0 && mgr().totalLoads() > mgr().totalLoadedBlocks()) { c.nontrivial = true; c.label("reloaded"); }
    }
    total = mgr().totalLoads();
    PBT_CHECK(mgr().numLoadedBlocks() <= mgr().totalLoadedBlocks() && mgr().totalLoadedBlocks() <= mgr().totalLoads() + mgr().numLoadedBlocks(), "dyn-stats", "cache statistics: " << mgr().numLoadedBlocks() << " loaded, " << mgr().totalLoadedBlocks() << " ever, " << mgr().totalLoads() << " loads");
  }
  for (auto &x : sl) { x->compare("at the end"); }
  sl.clear();
  PBT_CHECK(mgr().numLoadedBlocks() == 0, "dyn-stats", mgr().numLoadedBlocks() << " blocks count as loaded after all fields are gone");
}

PBT_TEST(writing, 120, 2500, "a dynamically read layer of any type, partly loaded under a limit, written to a file of either encoding with 1-4 threads and read back: bit for bit the original; non-trivial = it has blocks that do not fit the limit")
{
  IOReset rst; mgr().setLimitMemUse(true);
  World w(c); w.files.resize(1); w.og.resize(1); w.write(s, 0);
  size_t limit = s.chance(15) ? 0 : (size_t)(s.range(1, 24) * 512); setLimit(limit); c << " limit " << limit << ":";
  std::unique_ptr<Slot> sl(w.read(s, 0));
  int n = (int)s.range(0, 3); for (int q = 0; q < n; ++q) { sl->look(s, c); }
  if (s.flip()) { sl.reset(sl->copy(s)); }
  AnyField a = sl->any(), m = sl->model();
  for (int pass = 0; pass < 2; ++pass) {
    bool og = s.flip(); Field3DOutputFile::useOgawa(og); setNumIOThreads((int)s.range(1, 4)); c << (og ? " to Ogawa" : " to HDF5");
    std::string fn = c.scratch + "/out.f3d";
    { Field3DOutputFile out; PBT_CHECK(out.create(fn), "dyn-create", "create() failed"); PBT_CHECK(writeAny(out, "q", "l", a), "dyn-write", "writing a dynamically read field failed"); PBT_CHECK(out.close(), "dyn-close", "close() failed"); }
    mgr().setLimitMemUse(false);
    { Field3DInputFile in; PBT_CHECK(in.open(fn), "dyn-open", "open() failed"); auto g = readAny(in, "q", "l", a.type); PBT_CHECK(g.size() == 1, "dyn-read", g.size() << " fields came back"); cmpField(m, g[0], "copy of a dynamically read field"); }
    mgr().setLimitMemUse(true);
  }
  if (w.files[0][0].f.blocks * sl->blockBytes > limit) { c.nontrivial = true; }
  PBT_CHECK(sl->loaded() <= std::max(limit, sl->pinned() + 4 * 2 * sl->blockBytes), "dyn-limit", sl->loaded() << " bytes of blocks in use after writing; the limit is " << limit);
  sl->compare("after writing");
}

PBT_TEST(descriptors, 10, 60, "up to 60 dynamically read fields of either encoding come and go, each looked at: the process has no more files open than before; non-trivial always")
{
  IOReset rst; mgr().setLimitMemUse(true); c.nontrivial = true;
  World w(c); w.files.resize(1); w.og.resize(1); w.write(s, 0);
  auto fds = []() { int n = 0; for (int i = 0; i < 1024; ++i) { char b[64]; snprintf(b, sizeof(b), "/proc/self/fd/%d", i); char t[512]; ssize_t k = readlink(b, t, sizeof(t) - 1); if (k > 4) { t[k] = 0; if (!strncmp(t + k - 4, ".f3d", 4)) { ++n; } } } return n; };
  int before = fds(), n = (int)s.range(5, 60);
  for (int q = 0; q < n; ++q) { std::unique_ptr<Slot> sl(w.read(s, 0)); for (int z = 0; z < 3; ++z) { sl->look(s, c); } sl->compare("read"); }
  int after = fds(); c << " " << n << " fields";
  PBT_CHECK(after <= before, "dyn-descriptors", after - before << " file descriptors are still open after " << n << " dynamically read fields are gone");
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;
