// C12: lookups in MIP fields, lazy loading of levels, copies.
#include "common.h"
#include "Field3D/MIPField.h"
#include "Field3D/MIPInterp.h"
#include "Field3D/MIPUtil.h"
#include <atomic>
#include <thread>
using namespace fx;

//! A pyramid as plain arrays
template <class T> struct Pyr
{
  std::vector<Grid<T> > lv; V3i off; MatrixSpec ms; bool matrix;
  void gen(Src &s)
  {
    V3i r; for (int a = 0; a < 3; ++a) { r[a] = (int)s.range(3, 12); }
    off = V3i(0); if (s.flip()) { for (int a = 0; a < 3; ++a) { off[a] = (int)s.around0(-6, 6); } }
    V3i o = off;
    int n = (int)s.range(1, 4);
    for (int l = 0; l < n; ++l) {
      Grid<T> g; genGrid(s, zbox(r), g, s.flip() ? 0 : -1); lv.push_back(g);
      V3i q; for (int a = 0; a < 3; ++a) { q[a] = (r[a] + (o[a] & 1) + 1) / 2; }
      if (q == r) { break; }
      r = q; for (int a = 0; a < 3; ++a) { o[a] = o[a] >> 1; }
    }
    matrix = s.chance(75); ms = genMatrixSpec(s, 2);
    if (s.chance(25)) { worldTimesPow2(ms, (int)s.range(6, 26) * (s.flip() ? -1 : 1)); }   // worlds in other units
  }
  FieldMapping::Ptr map() const { if (matrix) { return mkMatrix(ms); } return FieldMapping::Ptr(new NullFieldMapping); }
};
template <class F> struct Mk { static typename F::Ptr make(const Grid<typename F::value_type> &g, int)
  { typename F::Ptr f(new F); f->setSize(g.b); toField(g, *f); return f; } };
template <class T> struct Mk<SparseField<T> > { static typename SparseField<T>::Ptr make(const Grid<T> &g, int order)
  { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(order); f->setSize(g.b); f->clear(mkConst<T>(0)); toFieldSparse(g, *f, mkConst<T>(0)); return f; } };

template <class F> struct Action : LazyLoadAction<F>
{
  Grid<typename F::value_type> g; int order; std::shared_ptr<std::atomic<int> > loads; mutable int failures = 0; bool slow = false;
  typename F::Ptr load() const
  {
    (*loads)++;
    if (slow) { usleep(200); }
    if (failures > 0) { --failures; return typename F::Ptr(); }
    return Mk<F>::make(g, order);
  }
};

template <class T> double trilin(const Grid<T> &g, const V3d &p, int comp)
{
  V3d q = p - V3d(0.5); int c[3]; double f[3], r = 0;
  for (int a = 0; a < 3; ++a) { c[a] = (int)floor(q[a]); f[a] = q[a] - c[a]; }
  for (int b = 0; b < 8; ++b) {
    r += (b & 1 ? f[0] : 1 - f[0]) * (b & 2 ? f[1] : 1 - f[1]) * (b & 4 ? f[2] : 1 - f[2]) *
         Comp<T>::get(g.clamped(c[0] + (b & 1), c[1] + ((b >> 1) & 1), c[2] + (b >> 2)), comp);
  }
  return r;
}
template <class T> V3d levelCoord(const Pyr<T> &p, const V3d &v, size_t l)
{ V3d r; for (int a = 0; a < 3; ++a) { r[a] = (v[a] + p.off[a] - ((p.off[a] >> l) << l)) / (1 << l); } return r; }

template <class T> double refSample(const Pyr<T> &p, const std::vector<double> &size, const V3d &v, double spot, int comp, std::set<size_t> *used)
{
  size_t n = size.size();
  if (spot <= size[0] || n == 1) { if (used) { used->insert(0); } return trilin(p.lv[0], v, comp); }
  for (size_t i = 1; i < n; ++i) {
    if (spot <= size[i]) {
      double t = (spot - size[i - 1]) / (size[i] - size[i - 1]);
      if (used) { used->insert(i - 1); used->insert(i); }
      return (1 - t) * trilin(p.lv[i - 1], levelCoord(p, v, i - 1), comp) + t * trilin(p.lv[i], levelCoord(p, v, i), comp);
    }
  }
  if (used) { used->insert(n - 1); }
  return trilin(p.lv[n - 1], levelCoord(p, v, n - 1), comp);
}

template <class T, class MIP> void checkAll(Src &s, const Pyr<T> &p, const MIP &m, const char *what)
{
  PBT_CHECK(m.numLevels() == p.lv.size(), "mip-levels", what << " has " << m.numLevels() << " levels, expected " << p.lv.size());
  PBT_CHECK(m.extents() == p.lv[0].b && m.dataWindow() == p.lv[0].b, "mip-size", what << " is " << bs(m.extents()));
  for (size_t l = 0; l < p.lv.size(); ++l) {
    PBT_CHECK(m.mipResolution(l) == dims(p.lv[l].b), "mip-resolution", what << " level " << l << " has resolution " << vs(m.mipResolution(l)));
    forVox(p.lv[l].b, [&](int i, int j, int k) { T v = m.mipValue(l, i, j, k); PBT_CHECK(same(v, p.lv[l].at(i, j, k)), "mip-value", what << " level " << l << " voxel (" << i << "," << j << "," << k << ") is " << vs(v) << " expected " << vs(p.lv[l].at(i, j, k))); });
    checkGrid<T>(*m.mipLevel(l), p.lv[l], "mip-value", what);
    PBT_CHECK(m.levelLoaded(l), "mip-loaded", what << " level " << l << " counts as not loaded after being read");
  }
  V3i x = genVoxel(s, p.lv[0].b);
  PBT_CHECK(same(m.value(x.x, x.y, x.z), p.lv[0].at(x.x, x.y, x.z)), "mip-value0", what << " value() is not level 0");
}
template <class T, class MIP> void checkPlaces(Src &s, const Pyr<T> &p, const MIP &m, FieldMapping::Ptr base, const char *what)
{
  if (!p.matrix) { return; }
  FieldMapping::Ptr b = base->clone(); b->setExtents(p.lv[0].b);
  for (size_t l = 0; l < p.lv.size(); ++l) {
    V3d v, w, w2; for (int a = 0; a < 3; ++a) { v[a] = s.real(0, dims(p.lv[0].b)[a]); }
    float t = (float)s.real(-1.5, 1.5);
    b->voxelToWorld(v, w, t); m.mipLevel(l)->mapping()->voxelToWorld(levelCoord(p, v, l), w2, t);
    PBT_CHECK((w - w2).length() < 1e-4 * (10 + w.length()), "mip-mapping", what << ": place " << vs(v) << " is at " << vs(w) << " but level " << l << " puts it at " << vs(w2) << " (time " << t << ")");
  }
}
template <class T, class MIP> void checkSamples(Src &s, Ctx &c, const Pyr<T> &p, const MIP &m, int n, std::set<size_t> *used, const char *what)
{
  V3d vs0 = m.mapping()->wsVoxelSize(0, 0, 0);
  std::vector<double> size; for (size_t l = 0; l < p.lv.size(); ++l) { size.push_back((double)std::min(std::min((float)vs0.x, (float)vs0.y), (float)vs0.z) * (1 << l)); }
  typename MIP::LinearInterp li(m);
  for (int q = 0; q < n; ++q) {
    V3d v; for (int a = 0; a < 3; ++a) { v[a] = s.chance(40) ? s.range(0, dims(p.lv[0].b)[a] - 1) + 0.5 : s.real(-2, dims(p.lv[0].b)[a] + 2); }
    double spot = 0;
    switch (s.below(4)) { case 0: break; case 1: spot = size[s.below(size.size())]; break; default: spot = size[0] * s.real(0.3, 1.5 * (1 << (p.lv.size() - 1))); }
    spot = (float)spot;
    T got = li.sample(v, (float)spot);
    double eps = sizeof(typename Comp<T>::type) == 2 ? 1.0 : 0.02;
    for (int a = 0; a < Comp<T>::n; ++a) {
      double e = refSample(p, size, v, spot, a, used);
      PBT_CHECK(fabs(Comp<T>::get(got, a) - e) <= eps, "mip-sample", what << ": sample at " << vs(v) << " with spot size " << spot << " (level 0 voxels are " << size[0] << ") is " << vs(got) << ", component " << a << " should be " << e);
    }
    V3f o; size_t l = s.below(p.lv.size()); m.getVsMIPCoord(V3f(v), l, o);
    PBT_CHECK((V3d(o) - levelCoord(p, v, l)).length() < 1e-4, "mip-coord", what << ": " << vs(v) << " in level " << l << " is " << vs(o) << " expected " << vs(levelCoord(p, v, l)));
  }
}

template <class F> typename MIPField<F>::Ptr direct(const Pyr<typename F::value_type> &p, int order, typename MIPField<F>::FieldVec *keep = 0)
{
  typename MIPField<F>::Ptr m(new MIPField<F>); typename MIPField<F>::FieldVec v;
  for (auto &g : p.lv) { v.push_back(Mk<F>::make(g, order)); }
  v[0]->setMapping(p.map()); m->setMIPOffset(p.off); m->setup(v);
  if (keep) { *keep = v; }
  return m;
}
template <class F> void lookupCase(Src &s, Ctx &c)
{
  typedef typename F::value_type T;
  Pyr<T> p; p.gen(s); int order = (int)s.range(1, 4);
  c << vs(dims(p.lv[0].b)) << " " << p.lv.size() << " levels, offset " << vs(p.off) << (p.matrix ? " matrix" : "");
  auto m = direct<F>(p, order);
  checkAll<T>(s, p, *m, "field"); checkPlaces<T>(s, p, *m, p.map(), "field");
  checkSamples<T>(s, c, p, *m, 12, 0, "field");
  // a later mapping change reaches every level
  if (p.matrix && s.flip()) { p.ms = genMatrixSpec(s, 2); m->setMapping(p.map()); checkPlaces<T>(s, p, *m, p.map(), "field with a new mapping"); checkSamples<T>(s, c, p, *m, 3, 0, "field with a new mapping"); }
  c.nontrivial = p.lv.size() > 1;
}
PBT_TEST(lookup, 4000, 60000, "in-memory MIP fields of generated levels, offsets and moving mappings, dense and sparse, three voxel types: voxel access, samples for spot sizes below, between, at and above the levels against a reference, level placement in space, also after changing the mapping; non-trivial = several levels")
{
  switch (s.below(4)) { case 0: lookupCase<DenseField<float> >(s, c); break; case 1: lookupCase<SparseField<float> >(s, c); break; case 2: lookupCase<SparseField<V3f> >(s, c); break; default: lookupCase<DenseField<half> >(s, c); }
}

template <class F> struct Lazy { typename MIPField<F>::Ptr m; std::vector<std::shared_ptr<std::atomic<int> > > loads; std::vector<boost::shared_ptr<Action<F> > > acts; };
template <class F> Lazy<F> lazy(const Pyr<typename F::value_type> &p, int order, bool slow = false)
{
  typedef typename F::value_type T; Lazy<F> r; r.m = typename MIPField<F>::Ptr(new MIPField<F>);
  typename MIPField<F>::ProxyVec pv; typename LazyLoadAction<F>::Vec av;
  for (auto &g : p.lv) {
    typename EmptyField<T>::Ptr e(new EmptyField<T>); e->setSize(g.b); e->setMapping(p.map()); pv.push_back(e);
    boost::shared_ptr<Action<F> > a(new Action<F>); a->g = g; a->order = order; a->slow = slow; a->loads = std::make_shared<std::atomic<int> >(0); r.loads.push_back(a->loads); r.acts.push_back(a); av.push_back(a);
  }
  r.m->setMIPOffset(p.off); r.m->setupLazyLoad(pv, av); r.m->name = "nm"; r.m->attribute = "at"; r.m->metadata().setIntMetadata("an_int", 5);
  return r;
}
template <class F> void lazyCase(Src &s, Ctx &c)
{
  typedef typename F::value_type T; typedef MIPField<F> MIP;
  Pyr<T> p; p.gen(s); int order = (int)s.range(1, 4);
  c << vs(dims(p.lv[0].b)) << " " << p.lv.size() << " levels;";
  Lazy<F> z = lazy<F>(p, order);
  // the fields under test and what they should hold
  struct Item { typename MIP::Ptr m; const Pyr<T> *p; std::set<size_t> loaded; };
  Pyr<T> p2; p2.gen(s); p2.matrix = p.matrix;
  Lazy<F> z2 = lazy<F>(p2, order);
  std::vector<Item> it; it.push_back(Item{z.m, &p, {}}); it.push_back(Item{z2.m, &p2, {}});
  for (size_t i = 0; i < it.size(); ++i) { for (size_t l = 0; l < it[i].p->lv.size(); ++l) { PBT_CHECK(!it[i].m->levelLoaded(l), "lazy-early", "level " << l << " is loaded before anything was read"); } }
  int n = (int)s.range(1, 12), copies = 0;
  for (int q = 0; q < n; ++q) {
    size_t w = s.below(it.size()); Item &x = it[w]; const Pyr<T> &pp = *x.p; size_t l = s.below(pp.lv.size());
    switch (s.weighted({4, 2, 2, 2, 1, 1})) {
    case 0: { V3i v = genVoxel(s, pp.lv[l].b); c << " read" << w << "." << l; T g = x.m->mipValue(l, v.x, v.y, v.z); PBT_CHECK(same(g, pp.lv[l].at(v.x, v.y, v.z)), "lazy-value", "field " << w << " level " << l << " voxel " << vs(v) << " is " << vs(g) << " expected " << vs(pp.lv[l].at(v.x, v.y, v.z))); x.loaded.insert(l); break; }
    case 1: { c << " sample" << w; std::set<size_t> u; checkSamples<T>(s, c, pp, *x.m, 1, &u, "lazy field"); x.loaded.insert(u.begin(), u.end()); break; }
    case 2: { c << " clone" << w; if (it.size() < 6) { Item y = x; FieldBase::Ptr cl = x.m->clone(); y.m = field_dynamic_cast<MIP>(cl); PBT_CHECK(y.m, "lazy-clone", "clone has another class"); it.push_back(y); copies++; } break; }
    case 3: { size_t u = s.below(it.size()); c << " assign" << w << "=" << u; *x.m = *it[u].m; x.p = it[u].p; x.loaded = it[u].loaded; copies++; break; }
    case 4: { c << " raw" << w << "." << l; const F *r = x.m->rawMipLevel(l); PBT_CHECK(r && r == x.m->concreteMipLevel(l).get(), "lazy-raw", "raw and counted level pointers differ"); x.loaded.insert(l);
      PBT_CHECK(r->name == x.m->name && r->attribute == x.m->attribute && r->metadata().intMetadata("an_int", -1) == 5, "lazy-meta", "level " << l << " of field " << w << " has name " << r->name << ":" << r->attribute); break; }
    default: { c << " place" << w; if (pp.matrix) { checkPlaces<T>(s, pp, *x.m, pp.map(), "lazy field"); for (size_t k = 0; k < pp.lv.size(); ++k) { x.loaded.insert(k); } } }
    }
    for (size_t i = 0; i < it.size(); ++i) {
      for (size_t k = 0; k < it[i].p->lv.size(); ++k) {
        bool is = it[i].m->levelLoaded(k), want = it[i].loaded.count(k) > 0;
        PBT_CHECK(is == want, "lazy-loaded", "field " << i << " level " << k << (is ? " is loaded although nothing needed it" : " is not loaded although it was read"));
      }
    }
  }
  // at most one load per field holding the level
  for (size_t l = 0; l < z.loads.size(); ++l) { PBT_CHECK(*z.loads[l] <= (int)it.size() + copies, "lazy-reload", "level " << l << " was loaded " << *z.loads[l] << " times"); if (!copies) { PBT_CHECK(*z.loads[l] <= 1, "lazy-reload", "level " << l << " was loaded " << *z.loads[l] << " times"); } }
  for (size_t i = 0; i < it.size(); ++i) { checkAll<T>(s, *it[i].p, *it[i].m, "lazy field at the end"); checkPlaces<T>(s, *it[i].p, *it[i].m, it[i].p->map(), "lazy field at the end"); }
  c.nontrivial = p.lv.size() > 1 && n > 2;
}
PBT_TEST(lazy_levels, 3000, 40000, "lazily loaded MIP fields: histories of reads, samples, clones and assignments between two pyramids; values, level placement and metadata are those of the pyramid assigned last, a level is loaded exactly when first needed; non-trivial = several levels and operations")
{
  switch (s.below(3)) { case 0: lazyCase<DenseField<float> >(s, c); break; case 1: lazyCase<SparseField<float> >(s, c); break; default: lazyCase<SparseField<V3f> >(s, c); }
}

PBT_TEST_MT(lazy_threads, 400, 6000, "several threads read and sample one lazily loaded MIP field: every thread sees the right values and level placement, each level is loaded once; non-trivial = several levels")
{
  typedef SparseField<float> F;
  Pyr<float> p; p.gen(s); p.matrix = true; int th = (int)s.range(2, 6);
  c << vs(dims(p.lv[0].b)) << " " << p.lv.size() << " levels " << th << " threads";
  Lazy<F> z = lazy<F>(p, 2, s.flip());
  std::vector<uint64_t> seeds; for (int t = 0; t < th; ++t) { seeds.push_back(s.below(1u << 30)); }
  FieldMapping::Ptr base = p.map(); base->setExtents(p.lv[0].b);
  std::vector<std::string> err(th); std::vector<std::thread> ths; std::atomic<bool> go(false);
  for (int t = 0; t < th; ++t) {
    ths.emplace_back([&, t]() {
      try {
        Src r(seeds[t]); while (!go) { }
        for (int q = 0; q < 6; ++q) {
          size_t l = r.below(p.lv.size()); V3i v = genVoxel(r, p.lv[l].b);
          const F *raw = z.m->rawMipLevel(l);
          if (!raw) { err[t] = "null level"; return; }
          V3d vv(r.real(0, 3), r.real(0, 3), r.real(0, 3)), w, w2; base->voxelToWorld(vv, w); raw->mapping()->voxelToWorld(levelCoord(p, vv, l), w2);
          if (!((w - w2).length() < 1e-4 * (10 + w.length()))) { err[t] = "level " + std::to_string(l) + " is misplaced in space"; return; }
          if (raw->name != "nm") { err[t] = "level " + std::to_string(l) + " has no name"; return; }
          float g = z.m->mipValue(l, v.x, v.y, v.z);
          if (g != p.lv[l].at(v.x, v.y, v.z)) { err[t] = "wrong value in level " + std::to_string(l); return; }
        }
      } catch (...) { err[t] = "exception"; }
    });
  }
  go = true; for (auto &t : ths) { t.join(); }
  for (auto &e : err) { PBT_CHECK(e.empty(), "lazy-threads", e); }
  for (size_t l = 0; l < z.loads.size(); ++l) { PBT_CHECK(*z.loads[l] <= 1, "lazy-threads-reload", "level " << l << " was loaded " << *z.loads[l] << " times"); }
  c.nontrivial = p.lv.size() > 1;
}

PBT_TEST(setup_checks, 3000, 40000, "setup() and setupLazyLoad() with generated level lists (null entries, growing or constant resolution, missing actions, no levels): invalid ones raise MIPFieldException, valid ones are accepted, and the field can be set up again afterwards; a level that cannot be loaded raises the exception and a later attempt may succeed; non-trivial = invalid list")
{
  typedef DenseField<float> F; typedef MIPField<F> MIP;
  int n = (int)s.range(0, 4); std::vector<Grid<float> > gs; V3i r((int)s.range(2, 9), (int)s.range(2, 9), (int)s.range(2, 9)); int bad = -1; bool valid = n > 0;
  MIP::FieldVec v; MIP::ProxyVec pv; LazyLoadAction<F>::Vec av; std::vector<boost::shared_ptr<Action<F> > > acts;
  V3i prev;
  for (int i = 0; i < n; ++i) {
    Grid<float> g; genGrid(s, zbox(r), g, 0); gs.push_back(g);
    bool null = s.chance(6);
    if (null) { valid = false; v.push_back(F::Ptr()); pv.push_back(MIP::ProxyPtr()); }
    else { v.push_back(Mk<F>::make(g, 0)); EmptyField<float>::Ptr e(new EmptyField<float>); e->setSize(g.b); pv.push_back(e); }
    boost::shared_ptr<Action<F> > a(new Action<F>); a->g = g; a->loads = std::make_shared<std::atomic<int> >(0); acts.push_back(a); av.push_back(a);
    if (i > 0) { bool grow = false, same_ = true; for (int a2 = 0; a2 < 3; ++a2) { if (r[a2] > prev[a2]) { grow = true; } if (r[a2] < prev[a2]) { same_ = false; } } if (grow || same_) { valid = false; } }
    prev = r;
    switch (s.weighted({6, 1, 1, 1})) { case 0: for (int a2 = 0; a2 < 3; ++a2) { r[a2] = (r[a2] + 1) / 2; } break; case 1: break; case 2: r[s.below(3)] += 1; break; default: r[s.below(3)] = 1; }
  }
  bool isLazy = s.flip(), missing = isLazy && s.chance(10); if (missing) { av.resize(av.size() + 1); valid = false; }
  c << n << " levels" << (isLazy ? " lazy" : "") << (valid ? " valid" : " invalid");
  MIP::Ptr m(new MIP);
  bool before = s.flip(); Pyr<float> p; if (before) { p.gen(s); m = direct<F>(p, 2); }
  bool threw = false;
  try { if (isLazy) { m->setupLazyLoad(pv, av); } else { m->setup(v); } } catch (Exc::MIPFieldException &) { threw = true; }
  PBT_CHECK(threw == !valid, "setup-check", (threw ? "a valid list of levels was refused" : "an invalid list of levels was accepted"));
  if (threw) {
    m->setMapping(FieldMapping::Ptr(new NullFieldMapping));   // a field without levels is still a field
    Pyr<float> q; q.gen(s); MIP::FieldVec w; for (auto &g : q.lv) { w.push_back(Mk<F>::make(g, 0)); }
    m->setup(w); q.off = V3i(0); checkAll<float>(s, q, *m, "field set up after a refused list");
  } else if (isLazy) {
    size_t l = s.below(n); acts[l]->failures = 1; bool t2 = false;
    try { m->mipValue(l, 0, 0, 0); } catch (Exc::MIPFieldException &) { t2 = true; }
    PBT_CHECK(t2, "lazy-fail", "a level that could not be loaded raised no exception");
    PBT_CHECK(!m->levelLoaded(l), "lazy-fail", "a level that could not be loaded counts as loaded");
    float g = m->mipValue(l, 0, 0, 0); PBT_CHECK(g == gs[l].at(0, 0, 0), "lazy-fail", "value after a repeated load");
  }
  c.nontrivial = !valid; (void)bad;
}

PBT_TEST(mip_offset, 6000, 80000, "computeOffset() of fields under axis-aligned mappings: the rounded voxel position of the field's first voxel on a grid anchored at the world origin; non-trivial = not zero")
{
  V3i r = genRes(s, 9), o; V3d vsz, org; double jit = s.real(-0.3, 0.3);
  for (int a = 0; a < 3; ++a) { o[a] = (int)s.around0(-20, 20); vsz[a] = s.real(0.1, 4); org[a] = (o[a] + jit) * vsz[a]; }
  M44d S, T; S.setScale(V3d(vsz.x * r.x, vsz.y * r.y, vsz.z * r.z)); T.setTranslation(org);
  DenseField<float> f; f.setSize(r); MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(S * T); f.setMapping(m);
  V3i got = computeOffset(f); c << vs(o);
  PBT_CHECK(got == o, "mip-offset", "offset is " << vs(got) << " expected " << vs(o) << " (jitter " << jit << ")");
  c.nontrivial = o != V3i(0);
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); }; } } g_init;
