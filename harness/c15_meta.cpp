// C15: mappings, names and metadata survive a file.
#include "roundtrip.h"
#include "Field3D/FieldMapping.h"
using namespace fx;

template <class V> static bool sameCurve(const V &a, const V &b)
{
  if (a.size() != b.size()) { return false; }
  for (size_t i = 0; i < a.size(); ++i) { if (memcmp(&a[i].first, &b[i].first, sizeof(a[i].first)) || memcmp((const void *)&a[i].second, (const void *)&b[i].second, sizeof(a[i].second))) { return false; } }
  return true;
}
static void cmpMapping(Src &s, FieldMapping::Ptr e, FieldMapping::Ptr g, const std::string &what)
{
  PBT_CHECK(g, "map-null", what << ": no mapping came back");
  PBT_CHECK(g->className() == e->className(), "map-class", what << ": a " << g->className() << " came back, a " << e->className() << " was written");
  PBT_CHECK(g->origin() == e->origin() && g->resolution() == e->resolution(), "map-extents", what << ": mapping origin " << vs(g->origin()) << " resolution " << vs(g->resolution()));
  PBT_CHECK(e->isIdentical(g) && g->isIdentical(e), "map-identical", what << ": isIdentical() is false for what came back");
  if (MatrixFieldMapping::Ptr a = FIELD_DYNAMIC_CAST<MatrixFieldMapping>(e)) {
    MatrixFieldMapping::Ptr b = FIELD_DYNAMIC_CAST<MatrixFieldMapping>(g);
    PBT_CHECK(b && sameCurve(a->localToWorldSamples(), b->localToWorldSamples()), "map-samples", what << ": time samples differ");
  }
  if (FrustumFieldMapping::Ptr a = FIELD_DYNAMIC_CAST<FrustumFieldMapping>(e)) {
    FrustumFieldMapping::Ptr b = FIELD_DYNAMIC_CAST<FrustumFieldMapping>(g);
    PBT_CHECK(b && sameCurve(a->screenToWorldSamples(), b->screenToWorldSamples()) && sameCurve(a->cameraToWorldSamples(), b->cameraToWorldSamples()), "map-samples", what << ": time samples differ");
    PBT_CHECK(a->zDistribution() == b->zDistribution(), "map-zdist", what << ": z distribution differs");
    PBT_CHECK(sameCurve(a->nearPlaneSamples(), b->nearPlaneSamples()) && sameCurve(a->farPlaneSamples(), b->farPlaneSamples()), "map-planes", what << ": near or far plane differs");
  }
  for (int q = 0; q < 4; ++q) {
    V3d p, a, b; for (int i = 0; i < 3; ++i) { p[i] = s.real(-2, 20); } float t = (float)s.real(-2, 3);
    e->voxelToWorld(p, a, t); g->voxelToWorld(p, b, t);
    PBT_CHECK(bitSame(a, b), "map-transform", what << ": voxelToWorld" << vs(p) << " at " << t << " is " << vs(b) << ", was " << vs(a));
    e->worldToVoxel(p, a, t); g->worldToVoxel(p, b, t);
    PBT_CHECK(bitSame(a, b), "map-transform", what << ": worldToVoxel" << vs(p) << " at " << t << " is " << vs(b) << ", was " << vs(a));
    e->localToWorld(p, a, t); g->localToWorld(p, b, t);
    PBT_CHECK(bitSame(a, b), "map-transform", what << ": localToWorld" << vs(p) << " at " << t << " is " << vs(b) << ", was " << vs(a));
  }
}

static std::string genKey(Src &s, int n)
{
  static const char *base[] = {"k", "x", "key name", "a.b", "time_", "mip", "version", "metadata", "K\xc3\xa9", "#1", "a/b", "/"};
  std::ostringstream o; o << base[s.below(12)] << n; return o.str();
}
static void genMeta(Src &s, FieldMetadata &m, const char *)
{
  int n = (int)s.range(0, 6), id = 0;
  for (int q = 0; q < n; ++q) {
    std::string k = genKey(s, id++); uint64_t h = s.below(1 << 30);
    switch (s.below(5)) {
    case 0: { std::string v; size_t l = s.chance(20) ? 0 : s.chance(10) ? s.range(100, 3000) : s.range(1, 20); for (size_t i = 0; i < l; ++i) { v += (char)(1 + mix(h + i) % 255); } m.setStrMetadata(k, v); break; }
    case 1: m.setIntMetadata(k, (int)mix(h)); break;
    case 2: m.setFloatMetadata(k, rawVal<float>(mix(h))); break;
    case 3: m.setVecIntMetadata(k, V3i((int)mix(h), (int)mix(h + 1), -(int)(h % 100))); break;
    default: m.setVecFloatMetadata(k, rawVal<V3f>(mix(h)));
    }
  }
}
template <class M> static bool sameBits(const M &a, const M &b)
{
  if (a.size() != b.size()) { return false; }
  auto i = a.begin(); auto j = b.begin();
  for (; i != a.end(); ++i, ++j) { if (i->first != j->first || memcmp((const void *)&i->second, (const void *)&j->second, sizeof(i->second))) { return false; } }
  return true;
}
static void cmpMeta(const FieldMetadata &a, const FieldMetadata &b, const std::string &what)
{
  PBT_CHECK(a.strMetadata() == b.strMetadata(), "meta-str", what << ": string metadata differs (" << b.strMetadata().size() << " entries, written " << a.strMetadata().size() << ")");
  PBT_CHECK(a.intMetadata() == b.intMetadata(), "meta-int", what << ": int metadata differs (" << b.intMetadata().size() << " entries, written " << a.intMetadata().size() << (b.intMetadata().empty() ? "" : ", last " + b.intMetadata().rbegin()->first + " after " + std::to_string(b.intMetadata().begin()->first.size())) << ")");
  PBT_CHECK(sameBits(a.floatMetadata(), b.floatMetadata()), "meta-float", what << ": float metadata differs");
  PBT_CHECK(a.vecIntMetadata() == b.vecIntMetadata(), "meta-vecint", what << ": int vector metadata differs");
  PBT_CHECK(sameBits(a.vecFloatMetadata(), b.vecFloatMetadata()), "meta-vecfloat", what << ": float vector metadata differs");
}
static size_t metaCount(const FieldMetadata &m) { return m.strMetadata().size() + m.intMetadata().size() + m.floatMetadata().size() + m.vecIntMetadata().size() + m.vecFloatMetadata().size(); }

PBT_TEST(persist, 400, 8000, "1-4 layers of any class with generated mappings (null, matrix, frustum with either z distribution, up to three time samples), layer metadata of all five types (extreme values, empty and long strings, any bytes) and global metadata, in either encoding: everything reads back exactly and every transform is bitwise the same; non-trivial = a mapping that is not null, or metadata")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  std::string fn = fileName(c);
  int n = (int)s.range(1, 4); GenOpt o; o.maxRes = 6; if (og) { o.classes &= ~(1u << kMAC); }
  std::vector<AnyField> fs; std::vector<MapSpec> ms;
  struct Own : public FieldMetadata { Own() : FieldMetadata(0) { } };
  c << (og ? "Ogawa:" : "HDF5:");
  std::vector<FieldMapping::Ptr> maps;
  for (int i = 0; i < n; ++i) {
    AnyField f = genAny(s, o);
    MapSpec sp = genMapSpec(s); ms.push_back(sp);
    f.f->setMapping(mkMap(sp));
    genMeta(s, f.f->metadata(), "layer");
    c << " " << f.desc() << " " << mapName(sp) << " mapping, " << metaCount(f.f->metadata()) << " metadata;"; c.label(mapName(sp));
    if (sp.kind || metaCount(f.f->metadata())) { c.nontrivial = true; }
    fs.push_back(f);
    maps.push_back(f.f->mapping());
  }
  Field3DOutputFile out;
  PBT_CHECK(out.create(fn), "io-create", "create() failed");
  bool global = s.chance(70), globalFirst = s.flip();
  auto doGlobal = [&]() { genMeta(s, out.metadata(), "global"); PBT_CHECK(out.writeGlobalMetadata(), "meta-global", "writeGlobalMetadata() failed"); };
  if (global && globalFirst) { doGlobal(); }
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(writeAny(out, "p" + std::to_string(i), "l" + std::to_string(i), fs[i]), "io-write", "layer " << i << " not written");
  }
  if (global && !globalFirst) { doGlobal(); }
  PBT_CHECK(out.close(), "io-close", "close() failed");
  Field3DInputFile in;
  PBT_CHECK(in.open(fn), "io-open", "open() failed");
  if (global) { cmpMeta(out.metadata(), in.metadata(), "global"); c.label("global"); }
  else { PBT_CHECK(metaCount(in.metadata()) == 0, "meta-global", "a file without global metadata has " << metaCount(in.metadata()) << " entries"); }
  std::vector<std::string> pn; in.getPartitionNames(pn);
  PBT_CHECK((int)pn.size() == n, "io-partitions", "the file lists " << pn.size() << " partitions, " << n << " were written");
  for (int q = 0; q < n; ++q) {
    int i = (int)s.below(n);
    std::ostringstream w; w << "layer " << i;
    auto got = readAny(in, "p" + std::to_string(i), "l" + std::to_string(i), fs[i].type);
    PBT_CHECK(got.size() == 1, "io-count", w.str() << " came back " << got.size() << " times");
    cmpMapping(s, fs[i].f->mapping(), got[0]->mapping(), w.str());
    cmpMeta(fs[i].f->metadata(), got[0]->metadata(), w.str());
    PBT_CHECK(got[0]->name == "p" + std::to_string(i) && got[0]->attribute == "l" + std::to_string(i), "io-name", w.str() << " is called " << got[0]->name << ":" << got[0]->attribute);
  }
}

PBT_TEST(samples, 150, 3000, "matrix mappings with up to 40 time samples in any order of insertion, including repeated times, in either encoding; otherwise as above; non-trivial = more than one sample")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
  int n = (int)s.range(1, 40);
  for (int i = 0; i < n; ++i) { m->setLocalToWorld((float)s.around0(-20, 20) * 0.25f, genMatrix(s)); }
  AnyField f; f.cls = kDense; f.type = 1; f.vox = f.blocks = 0;
  withAny(1, [&](auto t) { typedef decltype(t) T; typename DenseField<T>::Ptr d(new DenseField<T>); d->setSize(genBox(s, 4)); d->clear(mkVal<T>(3)); f.f = d; });
  f.f->setMapping(m);
  c << (og ? "Ogawa " : "HDF5 ") << m->localToWorldSamples().size() << " samples"; c.nontrivial = n > 1;
  std::string fn = fileName(c);
  { Field3DOutputFile out; out.create(fn); PBT_CHECK(writeAny(out, "p", "l", f), "io-write", "not written"); }
  Field3DInputFile in; PBT_CHECK(in.open(fn), "io-open", "open() failed");
  auto got = readAny(in, "p", "l", f.type);
  PBT_CHECK(got.size() == 1, "io-count", "came back " << got.size() << " times");
  cmpMapping(s, f.f->mapping(), got[0]->mapping(), "layer");
}

PBT_TEST(neighbours, 200, 4000, "2-5 layers of one partition whose mappings differ in one number by 2^-5 to 2^-30 of it, in the distribution of the slices or not at all, in either encoding: each layer comes back with its own mapping, bit for bit; non-trivial = mappings differ")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  std::string fn = fileName(c); int n = (int)s.range(2, 5); bool matrix = s.chance(60);
  MatrixSpec m0 = genMatrixSpec(s); FrustumSpec f0 = genFrustumSpec(s);
  std::vector<AnyField> fs;
  c << (og ? "Ogawa " : "HDF5 ") << n << (matrix ? " matrix" : " frustum") << " mappings";
  for (int i = 0; i < n; ++i) {
    MatrixSpec m = m0; FrustumSpec f = f0; bool same_ = i == 0 || s.chance(20);
    if (!same_) {
      c.nontrivial = true;
      if (matrix) { perturb(s, m); }
      else if (s.chance(20)) { f.uniform = !f.uniform; }
      else {
        auto &p = f.samples[s.below(f.samples.size())].second;
        if (s.flip()) { double &v = p.second[3][(int)s.below(3)]; v = nearby(s, v); }
        else { double &v = p.first[(int)s.below(4)][(int)s.below(3)]; v = nearby(s, v); }
      }
    }
    AnyField a; a.cls = kDense; a.type = 0; a.vox = a.blocks = 0;
    DenseField<float>::Ptr d(new DenseField<float>); d->setSize(V3i(2, 3, 2)); d->clear((float)i); d->setMapping(matrix ? FieldMapping::Ptr(mkMatrix(m)) : FieldMapping::Ptr(mkFrustum(f)));
    a.f = d; fs.push_back(a);
    if (s.chance(20)) { m0 = m; f0 = f; }
  }
  { Field3DOutputFile out; PBT_CHECK(out.create(fn), "io-create", "create() failed");
    for (int i = 0; i < n; ++i) { PBT_CHECK(writeAny(out, "p", "l" + std::to_string(i), fs[i]), "io-write", "layer " << i << " not written"); }
    PBT_CHECK(out.close(), "io-close", "close() failed"); }
  Field3DInputFile in; PBT_CHECK(in.open(fn), "io-open", "open() failed");
  for (int i = 0; i < n; ++i) {
    std::string w = "layer " + std::to_string(i);
    auto got = readAny(in, "p", "l" + std::to_string(i), 0);
    PBT_CHECK(got.size() == 1, "io-count", w << " came back " << got.size() << " times");
    cmpMapping(s, fs[i].f->mapping(), got[0]->mapping(), w);
  }
}

PBT_TEST(bulky, 20, 600, "one layer and the file with 0-300 metadata entries each, now and then strings of up to 200000 bytes (lengths around 2^16 preferred), strings and keys with bytes of zero, empty or long keys, in either encoding; what was reported as written reads back exactly, and only strings of more than 60000 bytes empty keys and texts with bytes of zero may be refused; non-trivial = more than 20 entries or a string of more than 60000 bytes")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  std::string fn = fileName(c);
  bool hard = false; size_t most = 0;
  auto gen = [&](FieldMetadata &m) {
    int n = (int)(s.flip() ? s.range(0, 12) : s.range(13, 300));
    for (int i = 0; i < n; ++i) {
      uint64_t h = s.below(1 << 30); std::string k = "k" + std::to_string(i);
      if (i < 3) {
        if (s.chance(8)) { k.clear(); hard = true; c.label("empty key"); }
        else if (s.chance(20)) { k += std::string(s.range(100, 3000), 'x'); }
        else if (s.chance(8)) { k += '\0'; k += "rest"; hard = true; c.label("zero in a key"); }
        if (s.chance(25)) {
          size_t l = s.flip() ? s.range(65400, 65600) : s.range(30000, 200000); std::string v; v.reserve(l); for (size_t j = 0; j < l; ++j) { v += (char)(1 + mix(h + j) % 255); }
          if (l > 60000) { hard = true; } most = std::max(most, l); m.setStrMetadata(k, v); continue;
        }
        if (s.chance(8)) { std::string v = "ab"; v.insert(s.below(3), 1, '\0'); hard = true; c.label("zero in a string"); m.setStrMetadata(k, v); continue; }
      }
      switch (h % 5) {
      case 0: m.setStrMetadata(k, std::string(mix(h) % 40, 'v')); break;
      case 1: m.setIntMetadata(k, (int)mix(h)); break;
      case 2: m.setFloatMetadata(k, rawVal<float>(mix(h))); break;
      case 3: m.setVecIntMetadata(k, V3i((int)mix(h), (int)mix(h + 1), i)); break;
      default: m.setVecFloatMetadata(k, rawVal<V3f>(mix(h)));
      }
    }
    most = std::max(most, (size_t)n * 100);
  };
  GenOpt o; o.maxRes = 4; if (og) { o.classes &= ~(1u << kMAC); }
  AnyField f = genAny(s, o); gen(f.f->metadata());
  bool layerHard = hard, ok; hard = false;
  Field3DOutputFile out; PBT_CHECK(out.create(fn), "io-create", "create() failed");
  bool first = s.flip(), gok = true; gen(out.metadata());
  if (first) { gok = out.writeGlobalMetadata(); }
  ok = writeAny(out, "p", "l", f);
  if (!first) { gok = out.writeGlobalMetadata(); }
  c << (og ? "Ogawa " : "HDF5 ") << f.desc() << ", " << metaCount(f.f->metadata()) << " and " << metaCount(out.metadata()) << " entries" << (ok ? "" : ", layer refused") << (gok ? "" : ", global refused");
  c.nontrivial = most > 2000;
  if (!ok || !gok) { c.label("refused"); }
  PBT_CHECK(ok || layerHard, "io-write", "layer not written"); PBT_CHECK(gok || hard, "meta-global", "writeGlobalMetadata() failed");
  PBT_CHECK(out.close() || !ok || !gok, "io-close", "close() failed");
  Field3DInputFile in;
  bool op = in.open(fn); PBT_CHECK(op || !ok || !gok, "io-open", "open() failed");
  if (!op) { return; }
  if (gok) { cmpMeta(out.metadata(), in.metadata(), "global"); }
  auto got = readAny(in, "p", "l", f.type);
  PBT_CHECK(got.size() == (ok ? 1u : 0u), "io-count", "the layer, " << (ok ? "written" : "refused") << ", came back " << got.size() << " times");
  if (ok) { cmpMeta(f.f->metadata(), got[0]->metadata(), "layer"); }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; }; } } g_init;
