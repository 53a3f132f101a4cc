// C13: what is written to an Ogawa file is what is read back.
#include "roundtrip.h"
#include "OgIO.h"
#include "OArchive.h"
#include "IArchive.h"
using namespace fx;

PBT_TEST(layers, 250, 6000, "1-3 layers of generated dense, sparse and MIP fields (and staggered ones, which must be refused) of six voxel types (padded, offset and partial data windows, all block orders, empty and uniform blocks, NaN, infinities, denormals, -0), written through either call, read in any order, once or twice, also as a wrong type: every voxel, face, level, block and size must be bitwise equal; non-trivial = more than one voxel")
{ GenOpt o; roundTrip(s, c, o, 3, true); }

PBT_TEST(blocks, 120, 2500, "sparse fields of many small or few large blocks, up to 48 voxels a side; otherwise as layers")
{ GenOpt o; o.maxRes = 48; o.classes = (1 << kSparse); o.maxOrder = 6; roundTrip(s, c, o, 1, true); }

PBT_TEST(large, 6, 120, "fields of up to 72 voxels a side (many slices, chunks and writer batches); otherwise as layers")
{ GenOpt o; o.maxRes = 72; o.maxOrder = 6; o.classes = (1u << kDense) | (1u << kSparse) | (1u << kMAC); roundTrip(s, c, o, 1, true); }

PBT_TEST(huge, 1, 20, "sparse fields of more than the 50 MB that readers take in at once, few voxels set in each block, empty blocks at the start and in between, also loaded dynamically: block states, voxels set and samples of the others; non-trivial = more than 50 MB and an empty block")
{ hugeTrip(s, c, true); }

PBT_TEST(rewrite, 80, 1500, "the same file name written, read, released and written again 2-4 times with other contents: each read sees the latest contents only; non-trivial = always")
{ rewriteTrip(s, c, true); }

PBT_TEST(big, -1, -3, "a dense layer of more than 2^32 bytes and a small one behind it: every voxel of both comes back; non-trivial always")
{
  int ax = (int)s.below(3); V3i r(560, 560, 560); r[ax] = 572 + (int)s.range(1, 5);       // * 24 bytes
  int o = (int)s.range(-5, 5); Box3i b(V3i(o), V3i(o - 1) + r); c << bs(b); c.nontrivial = true;
  std::string fn = fileName(c, "big.f3d"); IOReset rst; Field3DOutputFile::useOgawa(true); setNumIOThreads((int)s.range(1, 3));
  DenseField<V3d>::Ptr f(new DenseField<V3d>); f->name = "p"; f->attribute = "big"; f->setSize(b); f->clear(V3d(1, 2, 3));
  for (int q = 0; q < 5000; ++q) { V3i p; for (int a = 0; a < 3; ++a) { p[a] = b.min[a] + (int)(mix(q * 3 + a) % r[a]); } f->lvalue(p.x, p.y, p.z) = V3d(q, p.x, p.y + p.z); }
  f->lvalue(b.max.x, b.max.y, b.max.z) = V3d(-1, -2, -3);
  DenseField<float>::Ptr g(new DenseField<float>); g->name = "p"; g->attribute = "small"; g->setSize(V3i(3)); g->clear(5); g->lvalue(1, 2, 0) = 6;
  {
    Field3DOutputFile out; PBT_CHECK(out.create(fn), "big-create", "create() failed");
    PBT_CHECK(out.writeVectorLayer<double>(f) && out.writeScalarLayer<float>(g) && out.close(), "big-write", "writing failed");
  }
  {
    Field3DInputFile in; PBT_CHECK(in.open(fn), "big-open", "open() failed");
    Field<float>::Vec gs = in.readScalarLayers<float>("p", "small"); PBT_CHECK(gs.size() == 1 && gs[0]->value(1, 2, 0) == 6 && gs[0]->value(2, 2, 2) == 5, "big-small", "the small layer differs");
    Field<V3d>::Vec fs = in.readVectorLayers<double>("p", "big"); PBT_CHECK(fs.size() == 1, "big-read", fs.size() << " fields came back");
    DenseField<V3d>::Ptr h = field_dynamic_cast<DenseField<V3d> >(fs[0]); PBT_CHECK(h && h->dataWindow() == b, "big-read", "another window");
    for (int k = b.min.z; k <= b.max.z; ++k) { for (int j = b.min.y; j <= b.max.y; ++j) {
      bool eq = memcmp(&f->fastValue(b.min.x, j, k), &h->fastValue(b.min.x, j, k), sizeof(V3d) * r.x) == 0; PBT_CHECK(eq, "big-voxel", "a voxel of row " << j << " " << k << " differs");
    } }
  }
  unlink(fn.c_str());
}
//----------------------------------------------------------------------------
// The container itself
//----------------------------------------------------------------------------
namespace {
struct AttrV { std::string name; int type; uint64_t seed; };
struct DataV { std::string name; int type; bool comp; std::vector<std::pair<size_t, uint64_t> > el; };
struct Tree { std::string name; std::vector<AttrV> a; std::vector<DataV> d; std::vector<Tree> g; };
template <class T> struct OgVal { static T make(uint64_t h) { T v; unsigned char b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) { b[i] = (unsigned char)mix(h + i); } memcpy((void *)&v, b, sizeof(T)); return v; }
  static bool eq(const T &a, const T &b) { return memcmp((const void *)&a, (const void *)&b, sizeof(T)) == 0; } };
template <> struct OgVal<std::string> { static std::string make(uint64_t h) { std::string r; size_t n = mix(h) % 40; for (size_t i = 0; i < n; ++i) { r += (char)(1 + mix(h + i + 7) % 255); } return r; }
  static bool eq(const std::string &a, const std::string &b) { return a == b; } };
template <class F> void withOg(int t, F f)
{
  switch (t % 17) {
  case 0: f(int8_t()); break; case 1: f(uint8_t()); break; case 2: f(int16_t()); break; case 3: f(uint16_t()); break;
  case 4: f(int32_t()); break; case 5: f(uint32_t()); break; case 6: f(int64_t()); break; case 7: f(uint64_t()); break;
  case 8: f(float16_t()); break; case 9: f(float32_t()); break; case 10: f(float64_t()); break; case 11: f(vec16_t()); break;
  case 12: f(vec32_t()); break; case 13: f(vec64_t()); break; case 14: f(veci32_t()); break; case 15: f(mtx64_t()); break;
  default: f(std::string());
  }
}
template <class F> void withOgData(int t, F f)   // types usable as data set elements
{ withOg(t % 15, f); }
std::string ident(Src &s, int n)
{
  static const char *base[] = {"a", "b", "data", "x.0", "level.1", "mapping", "with space", "UTF\xc3\xa9", "slash", "0"};
  std::ostringstream o; o << base[s.below(10)] << n; return o.str();
}
void genTree(Src &s, Tree &t, int depth, int &cnt)
{
  int na = (int)s.range(0, 4), nd = (int)s.range(0, 3), ng = depth > 0 ? (int)s.range(0, 3) : 0;
  for (int i = 0; i < na; ++i) { t.a.push_back(AttrV{ident(s, cnt++), (int)s.below(17), s.below(1 << 20)}); }
  for (int i = 0; i < nd; ++i) {
    DataV d; d.name = ident(s, cnt++); d.type = (int)s.below(15); d.comp = s.flip();
    int ne = (int)s.range(0, 4);
    for (int e = 0; e < ne; ++e) { d.el.push_back(std::make_pair((size_t)(s.chance(20) ? 0 : s.chance(10) ? s.range(1000, 20000) : s.range(1, 50)), s.below(1 << 20))); }
    t.d.push_back(d);
  }
  for (int i = 0; i < ng; ++i) { Tree g; g.name = ident(s, cnt++); genTree(s, g, depth - 1, cnt); t.g.push_back(g); }
}
void writeTree(OgOGroup &g, const Tree &t)
{
  for (auto &a : t.a) { withOg(a.type, [&](auto v) { typedef decltype(v) T; OgOAttribute<T>(g, a.name, OgVal<T>::make(a.seed)); }); }
  for (auto &d : t.d) {
    withOgData(d.type, [&](auto v) {
      typedef decltype(v) T;
      if (d.comp) {
        OgOCDataset<T> o(g, d.name);
        for (auto &e : d.el) { std::vector<uint8_t> b(e.first + 1); for (size_t i = 0; i < e.first; ++i) { b[i] = (uint8_t)mix(e.second + i); } o.addData(e.first, &b[0]); }
      } else {
        OgODataset<T> o(g, d.name);
        for (auto &e : d.el) { std::vector<T> b(e.first + 1); for (size_t i = 0; i < e.first; ++i) { b[i] = OgVal<T>::make(e.second + i); } o.addData(e.first, &b[0]); }
      }
    });
  }
  for (auto &x : t.g) { OgOGroup og(g, x.name); writeTree(og, x); }
}
void checkTree(const OgIGroup &g, const Tree &t, size_t thread)
{
  std::set<std::string> ea, ed, ec, eg, ga, gd, gc, gg;
  for (auto &x : t.a) { ea.insert(x.name); } for (auto &x : t.d) { (x.comp ? ec : ed).insert(x.name); } for (auto &x : t.g) { eg.insert(x.name); }
  for (auto &x : g.attributeNames()) { ga.insert(x); } for (auto &x : g.datasetNames()) { gd.insert(x); } for (auto &x : g.compressedDatasetNames()) { gc.insert(x); } for (auto &x : g.groupNames()) { gg.insert(x); }
  PBT_CHECK(ea == ga && ed == gd && ec == gc && eg == gg, "og-names", "names listed for a group differ from those written");
  for (auto &a : t.a) {
    withOg(a.type, [&](auto v) {
      typedef decltype(v) T; OgIAttribute<T> r = g.findAttribute<T>(a.name);
      PBT_CHECK(g.attributeType(a.name) == OgawaTypeTraits<T>::typeEnum(), "og-attr", "attribute " << a.name << " has another type");
      PBT_CHECK(r.isValid() && r.name() == a.name, "og-attr", "attribute " << a.name << " not found");
      bool eq = OgVal<T>::eq(r.value(), OgVal<T>::make(a.seed));
      PBT_CHECK(eq, "og-attr", "attribute " << a.name << " has another value");
    });
    withOg(a.type + 1 + (int)(a.seed % 16), [&](auto v) { PBT_CHECK(!g.findAttribute<decltype(v)>(a.name).isValid(), "og-attr-type", "attribute " << a.name << " readable as another type"); });
  }
  for (auto &d : t.d) {
    withOgData(d.type, [&](auto v) {
      typedef decltype(v) T;
      if (d.comp) {
        OgICDataset<T> r = g.findCompressedDataset<T>(d.name);
        PBT_CHECK(r.isValid() && r.numDataElements() == d.el.size(), "og-data", "compressed data set " << d.name);
        for (size_t e = 0; e < d.el.size(); ++e) {
          PBT_CHECK(r.dataSize(e, thread) == d.el[e].first, "og-size", "element " << e << " of " << d.name << " has " << r.dataSize(e, thread) << " bytes, written " << d.el[e].first);
          std::vector<uint8_t> b(d.el[e].first + 1, 77); r.getData(e, &b[0], thread);
          for (size_t i = 0; i < d.el[e].first; ++i) { PBT_CHECK(b[i] == (uint8_t)mix(d.el[e].second + i), "og-data", "byte " << i << " of element " << e << " of " << d.name); }
        }
      } else {
        OgIDataset<T> r = g.findDataset<T>(d.name);
        PBT_CHECK(g.datasetType(d.name) == OgawaTypeTraits<T>::typeEnum(), "og-data", "data set " << d.name << " type");
        PBT_CHECK(r.isValid() && r.numDataElements() == d.el.size(), "og-data", "data set " << d.name);
        for (size_t e = 0; e < d.el.size(); ++e) {
          PBT_CHECK(r.dataSize(e, thread) == d.el[e].first, "og-size", "element " << e << " of " << d.name << " has " << r.dataSize(e, thread) << " values, written " << d.el[e].first);
          std::vector<T> b(d.el[e].first + 1); r.getData(e, &b[0], thread);
          for (size_t i = 0; i < d.el[e].first; ++i) { bool eq = OgVal<T>::eq(b[i], OgVal<T>::make(d.el[e].second + i)); PBT_CHECK(eq, "og-data", "value " << i << " of element " << e << " of " << d.name); }
        }
      }
    });
  }
  for (auto &x : t.g) { OgIGroup ig = g.findGroup(x.name); PBT_CHECK(ig.isValid() && ig.name() == x.name, "og-group", "group " << x.name << " not found"); checkTree(ig, x, thread); }
}
size_t treeSize(const Tree &t) { size_t n = t.a.size() + t.d.size() + t.g.size(); for (auto &x : t.g) { n += treeSize(x); } return n; }
}
PBT_TEST(container, 400, 8000, "trees of up to three levels of groups with attributes of all 17 types and plain or compressed data sets of several elements, empty ones included: names, types, sizes and contents must read back through any stream index; non-trivial = at least three nodes")
{
  Tree t; int cnt = 0; genTree(s, t, (int)s.range(0, 3), cnt);
  std::string fn = fileName(c, "tree.og");
  c << treeSize(t) << " nodes";
  { Alembic::Ogawa::OArchive ar(fn); PBT_CHECK(ar.isValid(), "og-create", "archive not valid"); OgOGroup root(ar); writeTree(root, t); }
  Alembic::Ogawa::IArchive ar(fn, (int)s.range(1, 4));
  PBT_CHECK(ar.isValid() && ar.isFrozen(), "og-open", "archive not valid after writing");
  OgIGroup root(ar);
  PBT_CHECK(root.isValid(), "og-open", "root group not valid");
  checkTree(root, t, s.below(6));
  c.nontrivial = treeSize(t) >= 3;
}

//----------------------------------------------------------------------------
// The container itself
//----------------------------------------------------------------------------
namespace {
struct Kid { enum { Group, Data, NoGroup, NoData } kind; int id; };
struct RawModel
{
  std::vector<std::vector<Kid> > groups; std::vector<bool> frozen; std::vector<std::string> data;
};
std::string rawBytes(Src &s) { size_t n = s.chance(15) ? 0 : (size_t)s.range(1, s.chance(10) ? 5000 : 40); uint64_t sd = s.below(1u << 20); std::string b(n, 0); for (size_t i = 0; i < n; ++i) { b[i] = (char)mix(sd + i); } return b; }
void checkRaw(Alembic::Ogawa::IGroupPtr g, const RawModel &m, int id, size_t thread, bool light, int depth)
{
  // a group left without children is stored as an empty one
  PBT_CHECK(g, "raw-group", "group " << id << " is missing");
  const std::vector<Kid> &k = m.groups[id]; bool isLight = light && k.size() > 8;
  PBT_CHECK(g->getNumChildren() == k.size(), "raw-count", "group " << id << " has " << g->getNumChildren() << " children, " << k.size() << " were added");
  PBT_CHECK(g->isLight() == isLight, "raw-light", "group " << id << " of " << k.size() << " children: isLight() is " << g->isLight());
  for (size_t i = 0; i < k.size() + 3; ++i) {
    size_t q = i < k.size() + 2 ? i : k.size() + 1000003; bool in = q < k.size();
    bool grp = in && (k[q].kind == Kid::Group || k[q].kind == Kid::NoGroup), dat = in && !grp;
    bool eg = grp && (k[q].kind == Kid::NoGroup || m.groups[k[q].id].empty()), ed = dat && (k[q].kind == Kid::NoData || m.data[k[q].id].empty());
    if (!isLight) {
      PBT_CHECK(g->isChildGroup(q) == grp && g->isChildData(q) == dat, "raw-kind", "child " << q << " of " << k.size() << " of group " << id << " is " << (g->isChildGroup(q) ? "a group" : g->isChildData(q) ? "data" : "nothing"));
      PBT_CHECK(g->isEmptyChildGroup(q) == eg && g->isEmptyChildData(q) == ed, "raw-empty", "child " << q << " of group " << id << " empty: " << g->isEmptyChildGroup(q) << g->isEmptyChildData(q));
    }
    Alembic::Ogawa::IDataPtr d = g->getData(q, thread);
    PBT_CHECK((d.get() != NULL) == dat, "raw-get", "getData(" << q << ") of group " << id << (dat ? " gave nothing" : " gave something"));
    if (d) {
      std::string want = k[q].kind == Kid::Data ? m.data[k[q].id] : "";
      PBT_CHECK(d->getSize() == want.size(), "raw-size", "data " << q << " of group " << id << " has " << d->getSize() << " bytes, written " << want.size());
      std::string b(want.size() + 1, 'x');
      for (size_t off : {size_t(0), want.size() / 2}) {
        d->read(want.size() - off, &b[0], off, thread);
        PBT_CHECK(b.compare(0, want.size() - off, want, off, std::string::npos) == 0, "raw-data", "data " << q << " of group " << id << " differs, read from " << off);
      }
    }
    if (grp && k[q].kind == Kid::Group && depth > 40) { continue; }
    Alembic::Ogawa::IGroupPtr c = g->getGroup(q, light, thread);
    PBT_CHECK((c.get() != NULL) == grp, "raw-get", "getGroup(" << q << ") of group " << id << (grp ? " gave nothing" : " gave something"));
    if (c && k[q].kind == Kid::Group) { checkRaw(c, m, k[q].id, thread, light, depth + 1); }
    else if (c) { PBT_CHECK(c->getNumChildren() == 0, "raw-empty", "an empty group has children"); }
  }
}
}
PBT_TEST(raw_groups, 1500, 30000, "histories of 5-60 calls on the groups of an Ogawa archive: groups, data in one or several pieces, shared groups and data, empty ones, replaced and rewritten data, groups frozen early or in any order, calls that must have no effect; the archive read through any stream, light or not, is what a model of it says; non-trivial = a shared, replaced or rewritten node, or a group frozen early")
{
  using namespace Alembic::Ogawa;
  std::string fn = fileName(c, "raw.og"); RawModel m;
  {
    OArchive ar(fn); PBT_CHECK(ar.isValid(), "raw-create", "archive not valid");
    std::vector<OGroupPtr> g; std::vector<ODataPtr> d;
    g.push_back(ar.getGroup()); m.groups.emplace_back(); m.frozen.push_back(false);
    int n = (int)s.range(5, 60);
    for (int q = 0; q < n; ++q) {
      int a = s.chance(40) ? 0 : (int)s.below(g.size()); bool fz = m.frozen[a];
      PBT_CHECK(g[a]->isFrozen() == fz && g[a]->getNumChildren() == m.groups[a].size(), "raw-state", "group " << a << " is frozen: " << g[a]->isFrozen() << ", children: " << g[a]->getNumChildren());
      switch (s.weighted({6, 6, 4, 2, 2, 3, 3, 1, 2, 2, 1})) {
      case 0: { OGroupPtr x = g[a]->addGroup(); PBT_CHECK(!x == fz, "raw-add", "addGroup() gave " << !!x); c << " g" << a;
        if (x) { m.groups[a].push_back({Kid::Group, (int)g.size()}); g.push_back(x); m.groups.emplace_back(); m.frozen.push_back(false); } break; }
      case 1: { std::string b = rawBytes(s); ODataPtr x = g[a]->addData(b.size(), b.data()); PBT_CHECK(!x == fz, "raw-add", "addData() gave " << !!x); c << " d" << a;
        if (x) { m.groups[a].push_back({Kid::Data, (int)d.size()}); d.push_back(x); m.data.push_back(b); PBT_CHECK(x->getSize() == b.size(), "raw-add", "getSize()"); } break; }
      case 2: case 3: {
        bool add = s.chance(70); int k = (int)s.range(0, 4); std::vector<std::string> b; std::vector<Alembic::Util::uint64_t> z; std::vector<const void *> p; std::string all;
        for (int i = 0; i < k; ++i) { b.push_back(rawBytes(s)); all += b.back(); } for (auto &x : b) { z.push_back(x.size()); p.push_back(x.data()); }
        z.push_back(0); p.push_back(NULL);
        ODataPtr x = add ? g[a]->addData(k, &z[0], &p[0]) : g[a]->createData(k, &z[0], &p[0]); PBT_CHECK(!x == fz, "raw-add", "addData() of pieces gave " << !!x); c << (add ? " m" : " c") << a;
        if (x) { if (add) { m.groups[a].push_back({Kid::Data, (int)d.size()}); } d.push_back(x); m.data.push_back(all); } break; }
      case 4: { std::string b = rawBytes(s); ODataPtr x = g[a]->createData(b.size(), b.data()); PBT_CHECK(!x == fz, "raw-add", "createData() gave " << !!x); c << " k" << a;
        if (x) { d.push_back(x); m.data.push_back(b); } break; }
      case 5: if (!d.empty()) { int e = (int)s.below(d.size()); g[a]->addData(d[e]); c << " s" << a; if (!fz) { m.groups[a].push_back({Kid::Data, e}); c.nontrivial = true; } } break;
      case 6: { int e = a + 1 + (int)s.below(g.size()); if (e < (int)g.size()) { g[a]->addGroup(g[e]); c << " h" << a << "." << e; if (!fz) { m.groups[a].push_back({Kid::Group, e}); c.nontrivial = true; } } break; }
      case 7: if (s.flip()) { g[a]->addEmptyGroup(); if (!fz) { m.groups[a].push_back({Kid::NoGroup, -1}); } } else { g[a]->addEmptyData(); if (!fz) { m.groups[a].push_back({Kid::NoData, -1}); } } c << " e" << a; break;
      case 8: if (!d.empty()) {
        int e = (int)s.below(d.size()); size_t i = s.below(m.groups[a].size() + 2); g[a]->replaceData(i, d[e]); c << " r" << a << "." << i;
        if (i < m.groups[a].size() && (m.groups[a][i].kind == Kid::Data || m.groups[a][i].kind == Kid::NoData)) { m.groups[a][i] = {Kid::Data, e}; c.nontrivial = true; } } break;
      case 9: if (!d.empty()) {
        int e = (int)s.below(d.size()); std::string &w = m.data[e], b = rawBytes(s); size_t off = s.below(w.size() + 2); if (s.flip() && off < w.size()) { b.resize(std::min(b.size(), w.size() - off)); }
        d[e]->rewrite(b.size(), b.empty() ? (void *)"" : &b[0], off); c << " w" << e;
        if (!b.empty() && off + b.size() <= w.size()) { w.replace(off, b.size(), b); c.nontrivial = true; } } break;
      default: g[a]->freeze(); m.frozen[a] = true; c << " f" << a; c.nontrivial = true; break;
      }
      for (size_t i = 0; i < m.groups[a].size() + 1 && q % 8 == 0; ++i) {
        bool in = i < m.groups[a].size(), dat = in && (m.groups[a][i].kind == Kid::Data || m.groups[a][i].kind == Kid::NoData);
        PBT_CHECK(g[a]->isChildData(i) == dat && g[a]->isChildGroup(i) == (in && !dat), "raw-kind", "child " << i << " of group " << a << " while writing");
        if (dat) { bool e = m.groups[a][i].kind == Kid::NoData || m.data[m.groups[a][i].id].empty(); PBT_CHECK(g[a]->isChildEmptyData(i) == e, "raw-empty", "child " << i << " of group " << a << " while writing"); }
      }
    }
    // in any order
    while (!g.empty()) { size_t i = s.below(g.size()); g.erase(g.begin() + i); }
  }
  bool light = s.flip(); size_t thread = s.below(6);
  IArchive ar(fn, (int)s.range(1, 4)); PBT_CHECK(ar.isValid() && ar.isFrozen(), "raw-open", "archive not valid after writing");
  // the root group is never light
  checkRaw(ar.getGroup(), m, 0, thread, false, 0);
  if (light) { for (size_t i = 0; i < m.groups[0].size(); ++i) { if (m.groups[0][i].kind == Kid::Group) { checkRaw(ar.getGroup()->getGroup(i, true, thread), m, m.groups[0][i].id, thread, true, 1); } } }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;
