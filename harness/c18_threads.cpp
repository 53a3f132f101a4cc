// C18: fields and files may be used by several threads at once.
#include "io.h"
#include <thread>
#include <atomic>
#include <zlib.h>
#include "perturb.h"
using namespace fx;

#define MT_TEST(NAME, QUICK, THOROUGH, RULE)                               \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c);                        \
  static pbt::Reg pbtreg_##NAME(pbt::Test{#NAME, pbt_##NAME, QUICK,        \
                                          THOROUGH, 40, 60, RULE});        \
  static void pbt_##NAME(pbt::Src &s, pbt::Ctx &c)

namespace {
SparseFileManager &mgr() { return SparseFileManager::singleton(); }
//! Runs fn(thread, its generator) on n threads that start together; failures of any thread fail the case
template <class F> void onThreads(Src &s, int n, const F &fn)
{
  std::vector<uint64_t> seeds; for (int t = 0; t < n; ++t) { seeds.push_back(s.below(1u << 30)); }
  std::vector<pbt::Failure> err(n); std::vector<std::thread> ths; std::atomic<int> ready(0);
  for (int t = 0; t < n; ++t) {
    ths.emplace_back([&, t]() {
      try { Src r(seeds[t]); perturbThread(seeds[t]); ++ready; while (ready < n) { sched_yield(); } fn(t, r); }
      catch (pbt::Failure &e) { err[t] = e; }
      catch (std::exception &e) { err[t] = pbt::Failure{"mt-exception", std::string("exception in a thread: ") + e.what()}; }
      catch (...) { err[t] = pbt::Failure{"mt-exception", "exception in a thread"}; }
    });
  }
  for (auto &t : ths) { t.join(); }
  for (int t = 0; t < n; ++t) { if (!err[t].sig.empty()) { throw pbt::Failure{err[t].sig, "thread " + std::to_string(t) + ": " + err[t].msg}; } }
}

//! A layer on disk with its contents in memory
struct Layer
{
  AnyField f; std::string file, name; bool og; FieldRes::Ptr shared;
};
V3i genVoxel(Src &r, const Box3i &b) { V3i p; for (int a = 0; a < 3; ++a) { p[a] = (int)r.range(b.min[a], b.max[a]); } return p; }
FieldRes::Ptr readOne(const Layer &y)
{
  Field3DInputFile in; PBT_CHECK(in.open(y.file), "mt-open", "open() failed");
  auto g = readAny(in, "p", y.name, y.f.type);
  PBT_CHECK(g.size() == 1 && g[0], "mt-read", "reading the layer gave " << g.size() << " fields");
  return g[0];
}
//! One look of a thread at a field of any class against the contents it must have
template <class T> void lookAt(Src &r, Field<T> &d, const Field<T> &m)
{
  Box3i w = m.dataWindow();
  PBT_CHECK(d.dataWindow() == w && d.extents() == m.extents(), "mt-window", "window is " << bs(d.dataWindow()) << ", written as " << bs(w));
  auto at = [&](const V3i &p, const T &v, const char *how) { T e = m.value(p.x, p.y, p.z); PBT_CHECK(bitSame(v, e), "mt-voxel", "voxel " << vs(p) << " is " << vs(v) << " by " << how << ", written as " << vs(e)); };
  SparseField<T> *sd = dynamic_cast<SparseField<T> *>(&d); const SparseField<T> *sm = dynamic_cast<const SparseField<T> *>(&m);
  switch (r.weighted({5, sd ? 4 : 0, 3, sd ? 1 : 0})) {
  case 0: { int n = (int)r.range(1, 20); for (int q = 0; q < n; ++q) { V3i p = genVoxel(r, w); at(p, d.value(p.x, p.y, p.z), "value()"); } break; }
  case 1: {
    Box3i b = w; if (r.flip()) { V3i p = genVoxel(r, w), q = genVoxel(r, w); for (int a = 0; a < 3; ++a) { b.min[a] = std::min(p[a], q[a]); b.max[a] = std::max(p[a], q[a]); } }
    size_t n = 0; const SparseField<T> &cd = *sd;
    for (typename SparseField<T>::const_iterator i = cd.cbegin(b), e = cd.cend(b); i != e; ++i, ++n) { at(V3i(i.x, i.y, i.z), *i, "iterator"); }
    PBT_CHECK(n == vol(b), "mt-iter", "iterator over " << bs(b) << " made " << n << " steps"); break;
  }
  case 2: {
    LinearFieldInterp<T> li; LinearSparseFieldInterp<T> si; int n = (int)r.range(1, 6);
    for (int q = 0; q < n; ++q) {
      V3d p; for (int a = 0; a < 3; ++a) { p[a] = w.min[a] + r.unit() * (w.max[a] - w.min[a] + 1); }
      bool sp = sd && r.flip(); T x = sp ? si.sample(*sd, p) : li.sample(d, p), y = sp ? si.sample(*sm, p) : li.sample(m, p);
      bool same = bitSame(x, y); for (int a = 0; a < Comp<T>::n; ++a) { if (std::isnan((double)Comp<T>::get(x, a)) && std::isnan((double)Comp<T>::get(y, a))) { same = true; } }
      PBT_CHECK(same, "mt-sample", "sample at " << vs(p) << " is " << vs(x) << ", expected " << vs(y));
    }
    break;
  }
  default: {
    V3i z = sm->blockRes(); PBT_CHECK(sd->blockRes() == z, "mt-blocks", "block resolution");
    forVox(zbox(z), [&](int i, int j, int k) { PBT_CHECK(sd->blockIsAllocated(i, j, k) == sm->blockIsAllocated(i, j, k), "mt-blocks", "allocation of a block"); });
    PBT_CHECK(sd->voxelCount() == sm->voxelCount() && sd->memSize() > 0, "mt-blocks", "voxel count");
  }
  }
}
void lookAtAny(Src &r, const Layer &y, const FieldRes::Ptr &f)
{
  PBT_CHECK(f, "mt-read", "no field");
  withAny(y.f.type, [&](auto t) { typedef decltype(t) T; typename Field<T>::Ptr d = field_dynamic_cast<Field<T> >(f), m = field_dynamic_cast<Field<T> >(y.f.f); PBT_CHECK(d, "mt-read", "field of another type"); lookAt<T>(r, *d, *m); });
}
FieldRes::Ptr copyOf(const Layer &y, const FieldRes::Ptr &f)
{
  FieldRes::Ptr r; withAny(y.f.type, [&](auto t) { typedef decltype(t) T; typename Field<T>::Ptr d = field_dynamic_cast<Field<T> >(f); r = boost::static_pointer_cast<FieldRes>(typename Field<T>::Ptr(field_dynamic_cast<Field<T> >(d->clone()))); }); return r;
}
void genLayers(Src &s, Ctx &c, std::vector<Layer> &ly, int maxFiles, unsigned classes, int maxRes)
{
  int nf = (int)s.range(1, maxFiles);
  for (int i = 0; i < nf; ++i) {
    bool og = s.flip(); Field3DOutputFile::useOgawa(og); std::string fn = c.scratch + "/f" + std::to_string(i) + ".f3d"; unlink(fn.c_str());
    Field3DOutputFile out; PBT_CHECK(out.create(fn), "mt-create", "create() failed"); int n = (int)s.range(1, 3);
    for (int l = 0; l < n; ++l) {
      GenOpt o; o.classes = classes; o.maxRes = maxRes; o.maxOrder = 3; Layer y; y.f = genAny(s, o); y.file = fn; y.name = "l" + std::to_string(l); y.og = og;
      c << " f" << i << (og ? "(Ogawa) " : "(HDF5) ") << y.f.desc() << " " << y.f.blocks << " blocks;";
      PBT_CHECK(writeAny(out, "p", y.name, y.f), "mt-write", "writing failed"); ly.push_back(y);
    }
    PBT_CHECK(out.close(), "mt-close", "close() failed");
  }
}
}

MT_TEST(dynamic, 80, 1500, "2-6 threads share dynamically read sparse fields of one to three files of both encodings under a limit of nothing to a few blocks: values, iterators, samplers, copies, drops, reads of the same and other layers, proxies, cache flushes, limit changes and statistics, every thread seeing the written contents; locks, reads and decompression give way at generated moments; non-trivial = blocks were loaded more than once")
{
  IOReset rst; std::vector<Layer> ly; genLayers(s, c, ly, 3, 1u << kSparse, 12);
  mgr().setLimitMemUse(true); mgr().setMaxMemUse(s.chance(20) ? 0 : s.range(1, 40) * 512 / 1048576.0f); mgr().resetCacheStatistics();
  for (auto &y : ly) { if (s.chance(70)) { y.shared = readOne(y); } }
  int n = (int)s.range(2, 6), steps = (int)s.range(10, 40); bool flush = s.flip(); c << " " << n << " threads, " << steps << " steps";
  Perturb pt((unsigned)s.range(0, 30));
  onThreads(s, n, [&](int, Src &r) {
    std::vector<std::pair<int, FieldRes::Ptr> > own;
    for (int q = 0; q < steps; ++q) {
      int k = (int)r.below(ly.size());
      switch (r.weighted({12, 4, 3, 3, 2, 1, flush ? 1 : 0, 1, 1})) {
      case 0: if (ly[k].shared) { FieldRes::Ptr f = ly[k].shared; lookAtAny(r, ly[k], f); } break;
      case 1: if (!own.empty()) { auto &o = own[r.below(own.size())]; lookAtAny(r, ly[o.first], o.second); } break;
      case 2: if (own.size() < 4 && ly[k].shared) { own.push_back({k, copyOf(ly[k], ly[k].shared)}); } break;
      case 3: if (own.size() < 4) { own.push_back({k, readOne(ly[k])}); lookAtAny(r, ly[k], own.back().second); } break;
      case 4: if (!own.empty()) { own.erase(own.begin() + r.below(own.size())); } break;
      case 5: { Field3DInputFile in; PBT_CHECK(in.open(ly[k].file), "mt-open", "open() failed"); auto p = in.readProxyLayer<float>("p", ly[k].name, ly[k].f.type > 2); PBT_CHECK(p.size() == 1, "mt-proxy", p.size() << " proxies"); std::vector<std::string> nm; in.getPartitionNames(nm); PBT_CHECK(nm.size() >= 1 && nm[0] == "p", "mt-names", "partition names"); break; }
      case 6: mgr().flushCache(); break;
      case 7: mgr().setMaxMemUse(r.range(0, 40) * 512 / 1048576.0f); break;
      default: PBT_CHECK(mgr().totalLoads() >= 0 && mgr().numLoadedBlocks() >= 0 && mgr().memSize() > 0, "mt-stats", "cache statistics"); mgr().cacheEfficiency();
      }
    }
  });
  c.nontrivial = mgr().totalLoads() > mgr().totalLoadedBlocks();
  for (auto &y : ly) { if (y.shared) { withAny(y.f.type, [&](auto t) { typedef decltype(t) T; typename SparseField<T>::Ptr d = field_dynamic_cast<SparseField<T> >(y.shared), m = field_dynamic_cast<SparseField<T> >(y.f.f); cmpVoxels<T>(*m, *d, "after the threads"); }); } }
  ly.clear(); PBT_CHECK(mgr().numLoadedBlocks() == 0, "mt-stats", mgr().numLoadedBlocks() << " blocks count as loaded after all fields are gone");
}

MT_TEST(files, 60, 1500, "2-6 threads, each with file objects of its own, read and drop layers of every class and both encodings in full, hold some of them, list names, and write fields to files of their own and read them back; non-trivial = both encodings were used or a thread wrote")
{
  IOReset rst; std::vector<Layer> ly; genLayers(s, c, ly, 3, (1u << kDense) | (1u << kSparse) | (1u << kMIPSparse) | (1u << kMIPDense), 9);
  bool og = s.flip(); Field3DOutputFile::useOgawa(og); setNumIOThreads((int)s.range(1, 3));
  int n = (int)s.range(2, 6), steps = (int)s.range(5, 20); c << " " << n << " threads, " << steps << " steps, writing " << (og ? "Ogawa" : "HDF5");
  Perturb pt((unsigned)s.range(0, 30)); std::atomic<bool> wrote(false);
  onThreads(s, n, [&](int t, Src &r) {
    std::vector<std::pair<int, FieldRes::Ptr> > own;
    for (int q = 0; q < steps; ++q) {
      int k = (int)r.below(ly.size()); const Layer &y = ly[k];
      switch (r.weighted({6, 3, 3, 1, 2})) {
      case 0: { FieldRes::Ptr f = readOne(y); lookAtAny(r, y, f); if (own.size() < 3 && r.flip()) { own.push_back({k, f}); } break; }
      case 1: if (!own.empty()) { auto &o = own[r.below(own.size())]; lookAtAny(r, ly[o.first], o.second); } break;
      case 2: if (!own.empty()) { own.erase(own.begin() + r.below(own.size())); } break;
      case 3: { Field3DInputFile in; PBT_CHECK(in.open(y.file), "mt-open", "open() failed"); std::vector<std::string> nm; in.getPartitionNames(nm); PBT_CHECK(nm.size() == 1 && nm[0] == "p", "mt-names", "partition names"); break; }
      default: {
        std::string fn = c.scratch + "/w" + std::to_string(t) + ".f3d"; wrote = true;
        { Field3DOutputFile out; PBT_CHECK(out.create(fn), "mt-create", "create() failed"); PBT_CHECK(writeAny(out, "q", "w", y.f), "mt-write", "writing failed"); PBT_CHECK(out.close(), "mt-close", "close() failed"); }
        Field3DInputFile in; PBT_CHECK(in.open(fn), "mt-open", "open() failed"); auto g = readAny(in, "q", "w", y.f.type);
        PBT_CHECK(g.size() == 1, "mt-read", g.size() << " fields came back"); cmpField(y.f, g[0], "written by a thread");
      }
      }
    }
  });
  bool two = false; for (auto &y : ly) { two = two || y.og != ly[0].og; }
  c.nontrivial = two || wrote;
}

namespace {
struct Counted : RefBase
{
  typedef boost::intrusive_ptr<Counted> Ptr;
  std::atomic<int> *gone; int pay[4];
  Counted(std::atomic<int> *g) : gone(g) { pay[0] = 12345; }
  ~Counted() { pay[0] = 0; ++*gone; }
  static const char *staticClassType() { return "Counted"; }
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  typedef RefBase base;
};
}
MT_TEST(references, 400, 8000, "2-4 threads copy, cast and drop references to shared objects, many rounds with all threads dropping the last references at the same time: every object stays until its last reference is gone and is destroyed once; non-trivial always")
{
  c.nontrivial = true; int n = (int)s.range(2, 4), rounds = 300; std::atomic<int> gone(0); c << n << " threads";
  std::vector<std::vector<Counted::Ptr> > hold(n, std::vector<Counted::Ptr>(rounds));
  for (int q = 0; q < rounds; ++q) { Counted::Ptr p(new Counted(&gone)); for (int t = 0; t < n; ++t) { hold[t][q] = p; } }
  std::atomic<int> at(0); bool copies = s.flip();
  onThreads(s, n, [&](int t, Src &r) {
    for (int q = 0; q < rounds; ++q) {
      ++at; for (int w = 0; at < (q + 1) * n; ++w) { if (w > 2000) { sched_yield(); } }   // all start on this object together
      if (copies) { int m = (int)r.below(4); for (int i = 0; i < m; ++i) { Counted::Ptr k(hold[t][q]), l; l = k; PBT_CHECK(l->pay[0] == 12345, "mt-ref", "object destroyed while referenced"); RefBase::Ptr b(k); } }
      hold[t][q].reset();
    }
  });
  PBT_CHECK(gone == rounds, "mt-ref", rounds << " objects, " << gone << " destructions");
}

MT_TEST(cached, 30, 600, "2-4 threads repeatedly read and drop the same layer at the same time, through file objects of their own, so that one thread looks up what another is letting go of: each gets a whole field of its own reference; non-trivial always")
{
  IOReset rst; std::vector<Layer> ly; genLayers(s, c, ly, 1, (1u << kDense) | (1u << kSparse), 3); c.nontrivial = true;
  const Layer &y = ly[0]; mgr().setLimitMemUse(s.flip()); int n = (int)s.range(2, 4), rounds = 40; c << " " << n << " threads";
  std::vector<std::unique_ptr<Field3DInputFile> > in; for (int t = 0; t < n; ++t) { in.emplace_back(new Field3DInputFile); PBT_CHECK(in[t]->open(y.file), "mt-open", "open() failed"); }
  Perturb pt((unsigned)s.range(0, 30));
  onThreads(s, n, [&](int t, Src &r) {
    for (int q = 0; q < rounds; ++q) {
      auto g = readAny(*in[t], "p", y.name, y.f.type); PBT_CHECK(g.size() == 1 && g[0], "mt-read", g.size() << " fields");
      lookAtAny(r, y, g[0]); FieldRes::Ptr k = g[0]; g.clear(); lookAtAny(r, y, k);
    }
  });
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;
