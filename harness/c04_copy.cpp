// C04: copies of fields are equal to and independent of the original.
#include "common.h"
#include "Field3D/MIPField.h"
#include "Field3D/MIPUtil.h"
using namespace fx;

//! Everything observable about a field
template <class T> struct Snap
{
  Def d; std::string name, attr; Grid<T> g; std::vector<V3d> pts; std::string meta; std::string mapClass;
};
template <class T> std::string metaStr(const T &m)
{
  std::ostringstream o; o.precision(9);
  for (auto &p : m.strMetadata()) { o << "s:" << p.first << "=" << p.second << ";"; }
  for (auto &p : m.intMetadata()) { o << "i:" << p.first << "=" << p.second << ";"; }
  for (auto &p : m.floatMetadata()) { o << "f:" << p.first << "=" << p.second << ";"; }
  for (auto &p : m.vecIntMetadata()) { o << "vi:" << p.first << "=" << vs(p.second) << ";"; }
  for (auto &p : m.vecFloatMetadata()) { o << "vf:" << p.first << "=" << vs(p.second) << ";"; }
  return o.str();
}
static std::vector<V3d> probe(const FieldMapping &m)
{
  std::vector<V3d> r;
  for (int t = 0; t < 2; ++t) for (int i = 0; i < 4; ++i) {
    V3d l(i & 1 ? 0.9 : 0.25, i & 2 ? 0.75 : 0.1, 0.2 * i + 0.1), v, w;
    m.localToVoxel(l, v); r.push_back(v);
    m.voxelToWorld(v, w, (float)t * 0.5f); r.push_back(w);
  }
  r.push_back(m.wsVoxelSize(0, 0, 0));
  return r;
}
template <class T> Snap<T> snap(const Field<T> &f)
{
  Snap<T> s; s.d.ext = f.extents(); s.d.dw = f.dataWindow(); s.name = f.name; s.attr = f.attribute; s.meta = metaStr(f.metadata());
  s.mapClass = f.mapping()->className(); s.pts = probe(*f.mapping());
  s.g.reset(s.d.dw, mkConst<T>(0));
  forVox(s.d.dw, [&](int i, int j, int k) { s.g.at(i, j, k) = f.value(i, j, k); });
  return s;
}
enum { Values = 1, Meta = 2, Names = 4, Map = 8, Window = 16, All = 31 };
template <class T> void checkSnap(const Snap<T> &a, const Field<T> &f, int parts, const char *sig, const std::string &what)
{
  Snap<T> b = snap(f);
  if (parts & Window) { PBT_CHECK(a.d.ext == b.d.ext && a.d.dw == b.d.dw, sig, what << ": extents/data window " << bs(b.d.ext) << bs(b.d.dw) << ", expected " << bs(a.d.ext) << bs(a.d.dw)); }
  if (parts & Meta) { PBT_CHECK(a.meta == b.meta, sig, what << ": metadata {" << b.meta << "}, expected {" << a.meta << "}"); }
  if (parts & Names) { PBT_CHECK(a.name == b.name && a.attr == b.attr, sig, what << ": name/attribute " << b.name << "/" << b.attr << ", expected " << a.name << "/" << a.attr); }
  if (parts & Map) {
    PBT_CHECK(a.mapClass == b.mapClass, sig, what << ": mapping class " << b.mapClass << ", expected " << a.mapClass);
    for (size_t i = 0; i < a.pts.size(); ++i) { PBT_CHECK((a.pts[i] - b.pts[i]).length() <= 1e-12 * (1 + a.pts[i].length()), sig, what << ": mapping probe " << i << " is " << vs(b.pts[i]) << ", expected " << vs(a.pts[i])); }
  }
  if (parts & Values) { forVox(a.d.dw, [&](int i, int j, int k) { PBT_CHECK(same(a.g.at(i, j, k), b.g.at(i, j, k)), sig, what << ": voxel (" << i << "," << j << "," << k << ") is " << vs(b.g.at(i, j, k)) << ", expected " << vs(a.g.at(i, j, k))); }); }
}
static void genMeta(Src &s, FieldMetadata &m)
{
  int n = (int)s.range(0, 4);
  for (int i = 0; i < n; ++i) {
    std::string k = "k" + std::to_string(s.below(3));
    switch (s.below(5)) {
    case 0: m.setStrMetadata(k, "v" + std::to_string(s.below(100))); break;
    case 1: m.setIntMetadata(k, (int)s.around0(-100, 100)); break;
    case 2: m.setFloatMetadata(k, (float)s.around0(-100, 100) / 4); break;
    case 3: m.setVecIntMetadata(k, V3i((int)s.around0(-9, 9), 2, 3)); break;
    default: m.setVecFloatMetadata(k, V3f((float)s.around0(-9, 9), 2.5f, 3)); break;
    }
  }
}
template <class F> void buildRandom(Src &s, F &f)
{
  typedef typename F::value_type T;
  Def d = genDef(s, 8);
  f.setSize(d.ext, d.dw); f.clear(mkVal<T>(s.below(20)));
  Grid<T> g; genGrid<T>(s, d.dw, g);
  toFieldSparse(g, f, mkConst<T>(0));
  f.name = "n" + std::to_string(s.below(5)); f.attribute = "a" + std::to_string(s.below(5));
  genMeta(s, f.metadata());
  f.setMapping(mkMap(genMapSpec(s)));
}
template <class T> void buildRandom(Src &s, MACField<T> &f)
{
  Def d = genDef(s, 6);
  f.setSize(d.ext, d.dw); f.clear(mkVal<T>(1));
  uint64_t sd = s.below(1000);
  forVox(Box3i(d.dw.min, d.dw.max + V3i(1, 0, 0)), [&](int i, int j, int k) { f.u(i, j, k) = mkVal<typename T::BaseType>(vhash(sd, i, j, k)); });
  forVox(Box3i(d.dw.min, d.dw.max + V3i(0, 1, 0)), [&](int i, int j, int k) { f.v(i, j, k) = mkVal<typename T::BaseType>(vhash(sd + 1, i, j, k)); });
  forVox(Box3i(d.dw.min, d.dw.max + V3i(0, 0, 1)), [&](int i, int j, int k) { f.w(i, j, k) = mkVal<typename T::BaseType>(vhash(sd + 2, i, j, k)); });
  f.name = "n" + std::to_string(s.below(5)); f.attribute = "a" + std::to_string(s.below(5));
  genMeta(s, f.metadata());
  f.setMapping(mkMap(genMapSpec(s)));
}
template <class T> void orderOf(SparseField<T> &f, Src &s) { f.setBlockOrder((int)s.range(1, 5)); }
template <class F> void orderOf(F &, Src &) {}
template <class T> void mutVoxel(MACField<T> &f, Src &s) { V3i p = genVoxel(s, f.dataWindow()); f.u(p.x, p.y, p.z) += 1; f.w(p.x, p.y, p.z) -= 3; }
template <class F> void mutVoxel(F &f, Src &s)
{ int n = (int)s.range(1, 4); for (int i = 0; i < n; ++i) { V3i p = genVoxel(s, f.dataWindow()); f.lvalue(p.x, p.y, p.z) = mkVal<typename F::value_type>(s.below(10000)); } }
template <class F> void mutate(Src &s, Ctx &c, F &f)
{
  typedef typename F::value_type T;
  int n = (int)s.range(1, 4);
  for (int q = 0; q < n; ++q) {
    int op = (int)s.weighted({4, 2, 2, 2, 2, 2}); c << " mut" << op;
    switch (op) {
    case 0: mutVoxel(f, s); break;
    case 1: f.clear(mkVal<T>(s.below(100))); break;
    case 2: { Def d = genDef(s, 6); f.setSize(d.ext, d.dw); f.clear(mkConst<T>(2)); break; }
    case 3: f.setMapping(mkMap(genMapSpec(s))); break;
    case 4: genMeta(s, f.metadata()); f.metadata().setStrMetadata("new", "x"); break;
    default: f.name += "x"; f.attribute += "y"; break;
    }
  }
}
//! In-place edits of the mapping object the field hands out
static void mutateMapping(Src &s, FieldMapping::Ptr m)
{
  if (MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(m)) { mm->setLocalToWorld(genMatrix(s)); }
  else { m->setExtents(genBox(s, 5)); }
}

template <class F> void copyCase(Src &s, Ctx &c, bool hasOrder)
{
  typedef typename F::value_type T;
  typename F::Ptr a(new F), b;
  if (hasOrder) { orderOf(*a, s); }
  buildRandom(s, *a);
  c << bs(a->extents()) << bs(a->dataWindow()) << " map " << a->mapping()->className();
  Snap<T> sa = snap<T>(*a);
  int how = (int)s.below(3);
  switch (how) {
  case 0: b = new F(*a); c << " copy-construct"; break;
  case 1: { b = new F; if (s.flip()) { if (hasOrder) { orderOf(*b, s); } buildRandom(s, *b); } *b = *a; c << " assign"; break; }
  default: b = field_dynamic_cast<F>(a->clone()); PBT_CHECK(b != 0, "clone-null", "clone has another class"); c << " clone"; break;
  }
  checkSnap<T>(sa, *b, All, "copy-differs", "the copy");
  checkSnap<T>(sa, *a, All, "copy-source", "the source after copying");
  if (s.flip()) { *b = *b; checkSnap<T>(sa, *b, All, "self-assign", "after self assignment"); }
  switch (s.below(4)) {
  case 0: mutate(s, c, *b); checkSnap<T>(sa, *a, All, "copy-aliased", "the source after changing the copy"); break;
  case 1: mutate(s, c, *a); checkSnap<T>(sa, *b, All, "copy-aliased", "the copy after changing the source"); break;
  case 2: c << " mutmap"; mutateMapping(s, b->mapping()); checkSnap<T>(sa, *a, All, "copy-aliased-mapping", "the source after changing the copy's mapping"); break;
  default: a = 0; mutate(s, c, *b); break;   // destroy the source, then keep using the copy
  }
  c.nontrivial = vol(sa.d.dw) > 1;
}
PBT_TEST(copy_dense, 20000, 200000, "dense field of generated content, mapping, metadata; copy constructed, assigned or cloned; equality, then changes on one side must not reach the other; non-trivial = more than one voxel")
{ int t = (int)s.below(6); c << "Dense<" << typeName(t) << "> "; withAny(t, [&](auto v) { copyCase<DenseField<decltype(v)> >(s, c, false); }); }
PBT_TEST(copy_sparse, 20000, 200000, "the same for sparse fields of random block order; non-trivial = more than one voxel")
{ int t = (int)s.below(6); c << "Sparse<" << typeName(t) << "> "; withAny(t, [&](auto v) { copyCase<SparseField<decltype(v)> >(s, c, true); }); }
PBT_TEST(copy_mac, 10000, 100000, "the same for staggered fields; non-trivial = more than one voxel")
{ int t = (int)s.below(3); c << "MAC<" << typeName(t + 3) << "> "; withVector(t, [&](auto v) { copyCase<MACField<decltype(v)> >(s, c, false); }); }

//! copyFrom between classes and voxel types, matchDefinition, sameDefinition, isIdentical
template <class F, class G> void convCase(Src &s, Ctx &c, bool so, bool dest)
{
  typedef typename F::value_type T; typedef typename G::value_type U;
  typename F::Ptr a(new F); typename G::Ptr b(new G);
  if (so) { orderOf(*a, s); }
  if (dest) { orderOf(*b, s); }
  buildRandom(s, *a);
  if (s.flip()) { buildRandom(s, *b); }
  c << bs(a->extents()) << bs(a->dataWindow());
  Snap<T> sa = snap<T>(*a);
  std::string bm = metaStr(b->metadata());
  if (s.chance(25)) {
    b->matchDefinition(a);
    PBT_CHECK((b->extents() == sa.d.ext && b->dataWindow() == sa.d.dw), "match-definition", "matchDefinition gives extents " << bs(b->extents()));
    std::vector<V3d> p = probe(*b->mapping());
    for (size_t i = 0; i < p.size(); ++i) { PBT_CHECK((p[i] - sa.pts[i]).length() <= 1e-12 * (1 + p[i].length()), "match-definition", "matchDefinition: mapping probe " << i << " is " << vs(p[i]) << " expected " << vs(sa.pts[i])); }
    bool sd = sameDefinition<T, U>(a, b);
    PBT_CHECK(sd, "same-definition", "sameDefinition is false after matchDefinition");
    c << " match";
  } else {
    b->template copyFrom<T>(typename Field<T>::Ptr(a));
    c << " copyFrom";
    PBT_CHECK((b->extents() == sa.d.ext && b->dataWindow() == sa.d.dw), "copyfrom-extents", "copyFrom gives extents " << bs(b->extents()) << " data window " << bs(b->dataWindow()));
    forVox(sa.d.dw, [&](int i, int j, int k) { U e = U(sa.g.at(i, j, k)); PBT_CHECK(same(b->value(i, j, k), e), "copyfrom-value", "copyFrom: voxel (" << i << "," << j << "," << k << ") is " << vs(b->value(i, j, k)) << " expected " << vs(e)); });
    std::vector<V3d> p = probe(*b->mapping());
    for (size_t i = 0; i < p.size(); ++i) { PBT_CHECK((p[i] - sa.pts[i]).length() <= 1e-12 * (1 + p[i].length()), "copyfrom-mapping", "copyFrom: mapping probe " << i << " is " << vs(p[i]) << " expected " << vs(sa.pts[i])); }
    bool sd = sameDefinition<T, U>(a, b);
    PBT_CHECK(sd, "same-definition", "sameDefinition is false after copyFrom");
    // independence
    mutate(s, c, *b);
    checkSnap<T>(sa, *a, All, "copyfrom-aliased", "the source after changing the copy");
  }
  c.nontrivial = vol(sa.d.dw) > 1;
}
PBT_TEST(copy_from, 20000, 200000, "copyFrom and matchDefinition between dense and sparse fields and between voxel types (values representable in all); non-trivial = more than one voxel")
{
  int ta = (int)s.below(3), tb = (int)s.below(3), k = (int)s.below(4); bool vec = s.flip();
  c << "kind" << k << " " << typeName(ta + 3 * vec) << "->" << typeName(tb + 3 * vec) << " ";
  auto run = [&](auto x, auto y) {
    typedef decltype(x) T; typedef decltype(y) U;
    switch (k) {
    case 0: convCase<DenseField<T>, DenseField<U> >(s, c, 0, 0); break;
    case 1: convCase<DenseField<T>, SparseField<U> >(s, c, 0, 1); break;
    case 2: convCase<SparseField<T>, DenseField<U> >(s, c, 1, 0); break;
    default: convCase<SparseField<T>, SparseField<U> >(s, c, 1, 1); break;
    }
  };
  if (vec) { withVector(ta, [&](auto x) { withVector(tb, [&](auto y) { run(x, y); }); }); }
  else { withScalar(ta, [&](auto x) { withScalar(tb, [&](auto y) { run(x, y); }); }); }
}
PBT_TEST(identical, 15000, 150000, "isIdentical of a field and its copy is true and becomes false after changing one voxel, the window or the mapping; non-trivial = always")
{
  SparseField<float>::Ptr a(new SparseField<float>); a->setBlockOrder((int)s.range(1, 4)); buildRandom(s, *a);
  DenseField<float>::Ptr b(new DenseField<float>); b->copyFrom(a);
  c << bs(a->dataWindow());
  Field<float>::Ptr fa = a, fb = b;
  bool id = isIdentical<float>(fa, fb);
  PBT_CHECK(id, "isidentical", "isIdentical is false for a copy");
  switch (s.below(3)) {
  case 0: { V3i p = genVoxel(s, a->dataWindow()); b->lvalue(p.x, p.y, p.z) += 1.0f; c << " voxel" << vs(p); break; }
  case 1: { Box3i e = b->extents(); e.max.y += 1; b->setSize(e, b->dataWindow()); c << " extents"; break; }
  default: { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d t; t.setTranslation(V3d(0, 100, 0)); m->setLocalToWorld(t); b->setMapping(m); c << " mapping"; break; }
  }
  id = isIdentical<float>(fa, fb);
  PBT_CHECK(!id, "isidentical", "isIdentical is true for fields that differ");
  c.nontrivial = true;
}
//! copyMAC
PBT_TEST(copy_macmac, 8000, 80000, "copyMAC copies definition and all faces and shares nothing; non-trivial = more than one voxel")
{
  MACField<V3f>::Ptr a(new MACField<V3f>), b(new MACField<V3f>); buildRandom(s, *a); if (s.flip()) { buildRandom(s, *b); }
  b->copyMAC(a);
  Box3i dw = a->dataWindow(); c << bs(dw);
  PBT_CHECK(b->dataWindow() == dw && b->extents() == a->extents(), "copymac", "extents");
  auto cmp = [&](const MACField<V3f> &x, const MACField<V3f> &y) {
    forVox(Box3i(dw.min, dw.max + V3i(1, 0, 0)), [&](int i, int j, int k) { PBT_CHECK(x.u(i, j, k) == y.u(i, j, k), "copymac", "u(" << i << "," << j << "," << k << ")"); });
    forVox(Box3i(dw.min, dw.max + V3i(0, 1, 0)), [&](int i, int j, int k) { PBT_CHECK(x.v(i, j, k) == y.v(i, j, k), "copymac", "v(" << i << "," << j << "," << k << ")"); });
    forVox(Box3i(dw.min, dw.max + V3i(0, 0, 1)), [&](int i, int j, int k) { PBT_CHECK(x.w(i, j, k) == y.w(i, j, k), "copymac", "w(" << i << "," << j << "," << k << ")"); });
  };
  cmp(*a, *b);
  bool sd = sameDefinition<V3f, V3f>(a, b);
  PBT_CHECK(sd, "copymac", "definition differs");
  Snap<V3f> sa = snap<V3f>(*a); mutate(s, c, *b); checkSnap<V3f>(sa, *a, All, "copymac", "source after changing the copy");
  c.nontrivial = vol(dw) > 1;
}
//! Metadata is a typed dictionary
PBT_TEST(metadata_model, 30000, 300000, "histories of typed metadata writes, overwrites, reads with defaults and whole-set copies on two fields against per-type maps; non-trivial = a key overwritten or used with two types")
{
  DenseField<float> f[2];
  std::map<std::string, std::string> ms[2]; std::map<std::string, int> mi[2]; std::map<std::string, float> mf[2];
  std::map<std::string, std::string> mvi[2], mvf[2];
  int n = (int)s.range(1, 25); bool nt = false; std::set<std::string> used;
  auto val = [&]() { return (int)s.around0(-1000, 1000); };
  for (int q = 0; q < n; ++q) {
    int w = (int)s.below(2); std::string k = s.pick(std::vector<std::string>{"a", "b", "A", "", "long key with spaces", "a/b"});
    if (!used.insert(k).second) { nt = true; }
    FieldMetadata &m = f[w].metadata();
    switch (s.weighted({3, 3, 3, 3, 3, 1})) {
    case 0: { std::string v = "v" + std::to_string(val()); m.setStrMetadata(k, v); ms[w][k] = v; break; }
    case 1: { int v = val(); m.setIntMetadata(k, v); mi[w][k] = v; break; }
    case 2: { float v = val() / 8.0f; m.setFloatMetadata(k, v); mf[w][k] = v; break; }
    case 3: { V3i v(val(), val(), val()); m.setVecIntMetadata(k, v); mvi[w][k] = vs(v); break; }
    case 4: { V3f v(val() / 8.0f, val(), val()); m.setVecFloatMetadata(k, v); mvf[w][k] = vs(v); break; }
    default: f[w].copyMetadata(f[1 - w]); ms[w] = ms[1 - w]; mi[w] = mi[1 - w]; mf[w] = mf[1 - w]; mvi[w] = mvi[1 - w]; mvf[w] = mvf[1 - w]; break;
    }
    for (int x = 0; x < 2; ++x) for (auto &kk : {std::string("a"), std::string("b"), std::string("A"), std::string(""), std::string("a/b"), std::string("nope")}) {
      const FieldMetadata &r = f[x].metadata();
      PBT_CHECK(r.strMetadata(kk, "dflt") == (ms[x].count(kk) ? ms[x][kk] : "dflt"), "metadata", "string metadata '" << kk << "'");
      PBT_CHECK(r.intMetadata(kk, -7) == (mi[x].count(kk) ? mi[x][kk] : -7), "metadata", "int metadata '" << kk << "'");
      PBT_CHECK(r.floatMetadata(kk, -7.5f) == (mf[x].count(kk) ? mf[x][kk] : -7.5f), "metadata", "float metadata '" << kk << "'");
      PBT_CHECK(vs(r.vecIntMetadata(kk, V3i(1, 2, 3))) == (mvi[x].count(kk) ? mvi[x][kk] : vs(V3i(1, 2, 3))), "metadata", "int vector metadata '" << kk << "'");
      PBT_CHECK(vs(r.vecFloatMetadata(kk, V3f(1, 2, 3))) == (mvf[x].count(kk) ? mvf[x][kk] : vs(V3f(1, 2, 3))), "metadata", "float vector metadata '" << kk << "'");
    }
  }
  c << n << " operations, " << used.size() << " keys"; c.nontrivial = nt;
}
static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;
