// C16: a file's partitions, layers and proxies are exactly what was written to it, through any history of the file objects.
#include "roundtrip.h"
#include "Field3D/EmptyField.h"
#include <unistd.h>
using namespace fx;

namespace {
struct Rec { std::string part, layer; int type, map, ext, id; bool sparse; };   // one successful write
struct Content { bool ogawa; std::vector<Rec> recs; std::set<std::string> tried; std::map<std::string, std::string> meta; };

struct World
{
  std::vector<FieldMapping::Ptr> maps; std::vector<Box3i> exts; int nextId = 1;
  MatrixSpec specs[2];
  bool reuse;                                                       // fields with mapping 3 or 4 are one object whose mapping and voxels change between writes
  std::map<int, FieldRes::Ptr> live;
  World(Src &s)
  {
    maps.push_back(FieldMapping::Ptr(new NullFieldMapping));
    maps.push_back(mkMatrix(genMatrixSpec(s))); maps.push_back(mkFrustum(genFrustumSpec(s)));
    specs[0] = genMatrixSpec(s); specs[1] = genMatrixSpec(s);
    if (s.chance(35)) { specs[1] = specs[0]; perturb(s, specs[1]); }   // two mappings that are nearly the same
    maps.push_back(mkMatrix(specs[0])); maps.push_back(mkMatrix(specs[1]));
    reuse = s.flip();
    exts.push_back(Box3i(V3i(0), V3i(1))); exts.push_back(Box3i(V3i(-2, 3, 5), V3i(0, 4, 5)));
  }
  template <class T> FieldRes::Ptr mk(const Rec &r)
  {
    typename ResizableField<T>::Ptr f; if (r.sparse) { f.reset(new SparseField<T>); } else { f.reset(new DenseField<T>); }
    FieldRes::Ptr *keep = reuse && r.map >= 3 ? &live[(r.type * 2 + r.ext) * 2 + r.sparse] : 0;
    if (keep && *keep) {
      f = field_dynamic_cast<ResizableField<T> >(*keep); f->clear(mkConst<T>(r.id));
      MatrixFieldMapping::Ptr m = field_dynamic_cast<MatrixFieldMapping>(f->mapping()); m->makeIdentity();
      for (auto &p : specs[r.map - 3].samples) { m->setLocalToWorld(p.first, p.second); }
    }
    else { f->setSize(exts[r.ext]); f->clear(mkConst<T>(r.id)); f->setMapping(maps[r.map]->clone()); if (keep) { *keep = f; } }
    f->name = r.part; f->attribute = r.layer;
    f->metadata().setIntMetadata("id", r.id);
    return f;
  }
  AnyField make(const Rec &r)
  {
    AnyField a; a.cls = r.sparse ? kSparse : kDense; a.type = r.type; a.vox = a.blocks = 0;
    withAny(r.type, [&](auto t) { a.f = this->mk<decltype(t)>(r); });
    return a;
  }
};
template <class T, bool V> struct WriteNamed { static bool go(Field3DOutputFile &o, FieldRes::Ptr f) { typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); return o.writeScalarLayer<T>(p); } };
template <class T> struct WriteNamed<T, true> { static bool go(Field3DOutputFile &o, FieldRes::Ptr f) { typedef typename Comp<T>::type S; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); return o.writeVectorLayer<S>(p); } };
template <class T, bool V> struct WriteDefault { static bool go(Field3DOutputFile &o, const std::string &l, FieldRes::Ptr f) { typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); return o.writeScalarLayer<T>(l, p); } };
template <class T> struct WriteDefault<T, true> { static bool go(Field3DOutputFile &o, const std::string &l, FieldRes::Ptr f) { typedef typename Comp<T>::type S; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); return o.writeVectorLayer<S>(l, p); } };
bool writeRec(Src &s, Field3DOutputFile &o, World &w, const Rec &r, bool ogawa)
{
  AnyField a = w.make(r);
  if (r.part == "default" && s.chance(75)) {
    bool ok = false, og = ogawa && s.flip();
    withAny(r.type, [&](auto t) { typedef decltype(t) T; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(a.f); ok = og ? o.writeLayer<T>(r.layer, p) : WriteDefault<T, (Comp<T>::n > 1)>::go(o, r.layer, a.f); });
    return ok;
  }
  if (ogawa && s.chance(15)) { bool ok = false; withAny(r.type, [&](auto t) { typedef decltype(t) T; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(a.f); ok = o.writeLayer<T>(p); }); return ok; }
  if (s.chance(25)) { bool ok = false; withAny(r.type, [&](auto t) { typedef decltype(t) T; ok = WriteNamed<T, (Comp<T>::n > 1)>::go(o, a.f); }); return ok; }
  return writeAny(o, r.part, r.layer, a);
}
template <class T> int idOf(FieldRes::Ptr f) { typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); if (!p) { return -1; } V3i m = p->extents().min; return (int)(double)Comp<T>::get(p->value(m.x, m.y, m.z), 0); }

void expectFields(World &w, const std::vector<FieldRes::Ptr> &got, const std::vector<Rec> &want, int type, const std::string &what)
{
  std::multiset<int> a, b;
  for (auto &r : want) { a.insert(r.id); }
  withAny(type, [&](auto t) { for (auto &f : got) { PBT_CHECK(f, "org-null", what << ": null field in the result"); b.insert(idOf<decltype(t)>(f)); } });
  if (a != b) { std::ostringstream o; o << what << " returned fields"; for (int i : b) { o << " #" << i; } o << ", expected"; for (int i : a) { o << " #" << i; } PBT_FAIL("org-fields", o.str()); }
  withAny(type, [&](auto t) { for (auto &f : got) {
    int id = idOf<decltype(t)>(f);
    for (auto &r : want) { if (r.id == id) {
      PBT_CHECK(f->name == r.part && f->attribute == r.layer, "org-name", what << ": #" << id << " is called " << f->name << ":" << f->attribute << ", written as " << r.part << ":" << r.layer);
      PBT_CHECK(f->extents() == w.exts[r.ext] && (f->className() == "SparseField") == r.sparse, "org-shape", what << ": #" << id << " has another size or class");
      FieldMapping::Ptr m = w.maps[r.map]->clone(); m->setExtents(w.exts[r.ext]);
      PBT_CHECK(f->mapping() && f->mapping()->isIdentical(m), "org-mapping", what << ": #" << id << " has another mapping");
      PBT_CHECK(f->metadata().intMetadata("id", -1) == id, "org-meta", what << ": #" << id << " has the metadata of #" << f->metadata().intMetadata("id", -1));
    } }
  } });
}
template <class R> std::string str(const R &v) { std::ostringstream o; o << "{"; for (auto &x : v) { o << " '" << x << "'"; } o << " }"; return o.str(); }

void checkContent(Src &s, World &w, Field3DInputFile &in, const Content &ct, const std::vector<std::string> &parts, const std::vector<std::string> &layers)
{
  // Partitions
  std::set<std::string> ep; for (auto &r : ct.recs) { ep.insert(r.part); }
  std::vector<std::string> pv; in.getPartitionNames(pv);
  std::set<std::string> gp(pv.begin(), pv.end());
  PBT_CHECK(gp.size() == pv.size(), "org-partitions", "getPartitionNames() repeats a name: " << str(pv));
  for (auto &p : ep) { PBT_CHECK(gp.count(p), "org-partitions", "partition '" << p << "' is not listed: " << str(pv)); }
  for (auto &p : gp) { PBT_CHECK(ep.count(p) || ct.tried.count(p), "org-partitions", "partition '" << p << "' is listed but was never written"); }
  // Layers
  for (auto &p : parts) {
    std::set<std::string> sc, ve; for (auto &r : ct.recs) { if (r.part == p) { (r.type < 3 ? sc : ve).insert(r.layer); } }
    std::vector<std::string> gs, gv; in.getScalarLayerNames(gs, p); in.getVectorLayerNames(gv, p);
    for (auto &l : sc) { PBT_CHECK(std::count(gs.begin(), gs.end(), l) == 1, "org-layers", "scalar layer '" << p << "':'" << l << "' is not listed once: " << str(gs)); }
    for (auto &l : ve) { PBT_CHECK(std::count(gv.begin(), gv.end(), l) == 1, "org-layers", "vector layer '" << p << "':'" << l << "' is not listed once: " << str(gv)); }
    if (!ct.tried.count(p)) {
      if (ct.ogawa) { for (auto &l : gs) { PBT_CHECK(sc.count(l) || ve.count(l), "org-layers", "'" << p << "' lists '" << l << "'"); } }
      else { PBT_CHECK(gs.size() == sc.size() && gv.size() == ve.size(), "org-layers", "'" << p << "' lists scalar " << str(gs) << " and vector " << str(gv)); }
    }
  }
  // Contents, by partition and layer
  auto sel = [&](const std::string &p, const std::string &l, int type) { std::vector<Rec> r; for (auto &x : ct.recs) { if ((p.empty() || x.part == p) && (l.empty() || x.layer == l) && x.type == type) { r.push_back(x); } } return r; };
  int n = (int)s.range(2, 8);
  for (int q = 0; q < n; ++q) {
    int type; std::string p, l;
    if (ct.recs.size() && s.chance(70)) { const Rec &r = ct.recs[s.below(ct.recs.size())]; type = r.type; p = r.part; l = r.layer; } else { type = (int)s.below(6); p = s.pick(parts); l = s.pick(layers); }
    bool og = ct.ogawa && s.flip();
    std::ostringstream o; o << (og ? "readLayers" : "readXLayers") << "<" << typeName(type) << ">";
    switch (s.below(4)) {
    case 0: expectFields(w, og ? readAnyOg(in, p, l, type) : readAny(in, p, l, type), p.empty() || l.empty() ? std::vector<Rec>() : sel(p, l, type), type, o.str() + "('" + p + "','" + l + "')"); break;
    case 1: {
      std::vector<FieldRes::Ptr> g; if (og) { withAny(type, [&](auto t) { typedef decltype(t) T; for (auto x : in.readLayers<T>(l)) { g.push_back(x); } }); } else { g = readAllAny(in, l, type); }
      expectFields(w, g, sel("", l, type), type, o.str() + "('" + l + "')"); break;
    }
    case 2: {
      std::vector<FieldRes::Ptr> g; if (og) { withAny(type, [&](auto t) { typedef decltype(t) T; for (auto x : in.readLayers<T>("")) { g.push_back(x); } }); } else { g = readAllAny(in, "", type); }
      expectFields(w, g, sel("", "", type), type, o.str() + "()"); break;
    }
    default: {   // proxies: everything but the voxels
      bool vec = type >= 3;
      int how = l.empty() ? 1 : (int)s.below(3);
      if (p.empty()) { how = 1; }
      EmptyField<float>::Vec g = how == 0 ? in.readProxyLayer<float>(p, l, vec) : vec ? in.readProxyVectorLayers<float>(how == 1 ? "" : l) : in.readProxyScalarLayers<float>(how == 1 ? "" : l);
      std::multiset<int> want, got, other;
      for (auto &r : ct.recs) { if ((how != 0 || r.part == p) && (how == 1 || r.layer == l)) { ((r.type >= 3) == vec ? want : other).insert(r.id); } }
      for (auto &f : g) {
        PBT_CHECK(f, "org-proxy", "null proxy");
        int id = f->metadata().intMetadata("id", -1); got.insert(id);
        for (auto &r : ct.recs) { if (r.id == id) {
          PBT_CHECK(f->extents() == w.exts[r.ext] && f->dataWindow() == w.exts[r.ext], "org-proxy", "proxy of #" << id << " has extents " << bs(f->extents()));
          PBT_CHECK(f->name == r.part && f->attribute == r.layer, "org-proxy", "proxy of #" << id << " is called " << f->name << ":" << f->attribute);
          FieldMapping::Ptr m = w.maps[r.map]->clone(); m->setExtents(w.exts[r.ext]);
          PBT_CHECK(f->mapping() && f->mapping()->isIdentical(m), "org-proxy", "proxy of #" << id << " has another mapping");
        } }
      }
      for (int id : want) { PBT_CHECK(got.count(id) == 1, "org-proxy", "layer #" << id << " has " << got.count(id) << " proxies"); }
      for (int id : got) { PBT_CHECK(want.count(id) || (ct.ogawa && other.count(id)) || ct.tried.size(), "org-proxy", "proxy for #" << id << " which does not match"); }
    }
    }
  }
  // Global metadata
  PBT_CHECK(in.metadata().strMetadata() == ct.meta, "org-global", "global metadata has " << in.metadata().strMetadata().size() << " entries, " << ct.meta.size() << " were written");
  PBT_CHECK(in.encoding() == (ct.ogawa ? "Ogawa" : "HDF5"), "org-encoding", "encoding() is " << in.encoding());
}

//! Names that stress how partitions are numbered and looked up, and some that a file cannot hold
const char *kParts[] = {"a", "b", "a.0", "a.b", "ab", "a.0.1", "part with space", "field3d_global_metadata", "A", "default", "default"};
const char *kLayers[] = {"d", "v", "density", "metadata", "a", "d.0", "level.0", "k \xc3\xa9", "data"};
const std::string kOdd[] = {"mapping", "x/y", "/", ".", std::string("d\0e", 3), "", "..", std::string("\0", 1)};

Content writeFile(Src &s, Ctx &c, World &w, Field3DOutputFile &out, bool ogawa, int maxWrites, bool odd, const std::vector<std::string> &parts, const std::vector<std::string> &layers)
{
  Content ct; ct.ogawa = ogawa;
  int n = (int)s.range(0, maxWrites);
  bool dupes = s.flip();
  for (int q = 0; q < n; ++q) {
    Rec r; r.part = s.pick(parts); r.layer = s.pick(layers); r.type = (int)s.below(6); r.map = (int)s.below(5); r.ext = (int)s.below(2); r.sparse = s.flip(); r.id = w.nextId++;
    if (dupes && ct.recs.size() && s.chance(40)) { const Rec &o = ct.recs[s.below(ct.recs.size())]; r.part = o.part; r.layer = o.layer; if (s.flip()) { r.map = o.map; r.ext = o.ext; } }
    if (w.reuse && ct.recs.size() && ct.recs.back().map >= 3 && s.flip()) { const Rec &o = ct.recs.back(); r.part = o.part; r.type = o.type; r.ext = o.ext; r.sparse = o.sparse; r.map = 7 - o.map; }
    bool bad = false;
    if (odd && s.chance(25)) { if (s.chance(75)) { r.layer = kOdd[s.below(8)]; } else { r.part = kOdd[s.below(5)]; } bad = true; }
    c << " " << (bad ? "odd " : "") << "'" << r.part << "':'" << r.layer << "' " << typeName(r.type) << " m" << r.map << "e" << r.ext << ";";
    bool ok = writeRec(s, out, w, r, ogawa);
    PBT_CHECK(ok || bad, "org-write", "writing '" << r.part << "':'" << r.layer << "' failed");
    if (ok) { ct.recs.push_back(r); } else { ct.tried.insert(r.part); }
    if (bad) { c.label(ok ? "odd name written" : "odd name refused"); }
  }
  if (s.flip()) {
    int k = (int)s.range(1, 3);
    for (int i = 0; i < k; ++i) { std::string key = "key" + std::to_string(s.below(5)), v = "v" + std::to_string(w.nextId++); out.metadata().setStrMetadata(key, v); }
    PBT_CHECK(out.writeGlobalMetadata(), "org-global", "writeGlobalMetadata() failed");
    ct.meta = out.metadata().strMetadata();
  }
  return ct;
}
void names(Src &s, bool odd, std::vector<std::string> &parts, std::vector<std::string> &layers)
{
  int n = (int)s.range(1, 3), m = (int)s.range(1, 4);
  for (int i = 0; i < n; ++i) { parts.push_back(kParts[s.below(11)]); }
  for (int i = 0; i < m; ++i) { layers.push_back(kLayers[s.below(9)]); }
}
}

PBT_TEST(organise, 300, 6000, "0-14 layers of any type written under names that are reused, nested ('a', 'a.0', 'a.0.1') or not storable ('mapping', 'x/y', ''), with three mappings and two sizes, by either call: each is written and then found by every read and proxy call under its name with its own mapping and metadata, once, or refused without effect on the others; non-trivial = two layers with one name")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  World w(s); std::vector<std::string> parts, layers; bool odd = s.chance(30); names(s, odd, parts, layers);
  c << (og ? "Ogawa:" : "HDF5:");
  std::string fn = fileName(c);
  Content ct;
  {
    Field3DOutputFile out; PBT_CHECK(out.create(fn), "io-create", "create() failed");
    ct = writeFile(s, c, w, out, og, 14, odd, parts, layers);
    if (s.flip()) { PBT_CHECK(out.close(), "io-close", "close() failed"); }
  }
  std::set<std::string> seen; for (auto &r : ct.recs) { if (!seen.insert(r.part + ":" + r.layer).second) { c.nontrivial = true; } }
  Field3DInputFile in; PBT_CHECK(in.open(fn), "io-open", "open() failed");
  parts.push_back("nosuch"); parts.push_back("a"); parts.push_back("a.0"); parts.push_back(""); layers.push_back("nosuch"); layers.push_back("");
  checkContent(s, w, in, ct, parts, layers);
}

PBT_TEST(many, 12, 300, "30-250 layers in 1-60 partitions with names of up to 2000 bytes of any value but zero and slash, with up to 35 mappings, written in any order and otherwise as above; non-trivial always")
{
  IOReset rst; bool og = s.flip(); Field3DOutputFile::useOgawa(og);
  World w(s); w.reuse = false; std::string fn = fileName(c);
  for (int i = (int)s.range(0, 30); i > 0; --i) { w.maps.push_back(mkMatrix(genMatrixSpec(s))); }
  auto name = [&](int i) { std::string r = std::to_string(i); size_t l = s.chance(15) ? s.range(200, 2000) : s.range(1, 12); uint64_t h = s.below(1 << 30); for (size_t j = 0; j < l; ++j) { char ch = (char)(1 + mix(h + j) % 255); r += ch == '/' ? '_' : ch; } return r; };
  int np = (int)(s.flip() ? s.range(1, 3) : s.range(4, 60)), nl = (int)s.range(1, 8), n = (int)s.range(30, 250);
  std::vector<std::string> parts, layers; for (int i = 0; i < np; ++i) { parts.push_back(name(i)); } for (int i = 0; i < nl; ++i) { layers.push_back(name(i)); }
  c << (og ? "Ogawa: " : "HDF5: ") << n << " layers, " << np << " partition names, " << nl << " layer names"; c.nontrivial = true;
  Content ct; ct.ogawa = og;
  {
    Field3DOutputFile out; PBT_CHECK(out.create(fn), "io-create", "create() failed");
    for (int i = 0; i < n; ++i) {
      Rec r; r.part = s.pick(parts); r.layer = s.pick(layers); r.type = (int)s.below(6); r.map = (int)s.below(w.maps.size()); r.ext = (int)s.below(2); r.sparse = s.flip(); r.id = w.nextId++;
      PBT_CHECK(writeRec(s, out, w, r, og), "org-write", "writing layer " << i << " failed");
      ct.recs.push_back(r);
    }
    PBT_CHECK(out.close(), "io-close", "close() failed");
  }
  Field3DInputFile in; PBT_CHECK(in.open(fn), "io-open", "open() failed");
  parts.push_back("nosuch"); layers.push_back("");
  checkContent(s, w, in, ct, parts, layers);
}

PBT_TEST(reuse, 250, 5000, "histories of 3-10 steps with two output and two input objects used again and again over three file names in both encodings: creating (also refusing to replace), writing more, closing, opening (also missing and foreign files), reading and querying, also closed objects: what an object shows is always the file it has open; non-trivial = an object changes encoding or fails in between")
{
  IOReset rst;
  World w(s); std::vector<std::string> parts, layers; names(s, false, parts, layers);
  std::string fn[3] = {c.scratch + "/f0.f3d", c.scratch + "/f1.f3d", c.scratch + "/f2.f3d"};
  for (auto &f : fn) { unlink(f.c_str()); }   // left by the previous case of this worker
  bool exists[3] = {false, false, false}; Content ct[3];
  std::string junk = c.scratch + "/junk"; spitFile(junk, std::string("this is not a field file, although it is long enough to hold a header of one"));
  Field3DOutputFile out[2]; Field3DInputFile in[2]; int opened[2] = {-1, -1}, prevEnc[4] = {-1, -1, -1, -1};
  int n = (int)s.range(3, 10);
  std::vector<std::string> qp = parts, ql = layers; qp.push_back("nosuch"); ql.push_back("");
  for (int q = 0; q < n; ++q) {
    switch (s.weighted({4, 5, 1, 1, 1, 2})) {
    case 0: {   // write a whole file
      int o = (int)s.below(2), f = (int)s.below(3); bool og = s.flip(); Field3DOutputFile::useOgawa(og);
      bool inUse = opened[0] == f || opened[1] == f; if (inUse) { for (int i = 0; i < 2; ++i) { if (opened[i] == f) { in[i].close(); opened[i] = -1; } } }
      bool failMode = s.chance(30);
      c << " write(out" << o << "," << f << "," << (og ? "Ogawa" : "HDF5") << (failMode ? ",FailOnExisting" : "") << "):";
      std::string before = exists[f] ? slurpFile(fn[f]) : std::string();
      bool ok = out[o].create(fn[f], failMode ? Field3DOutputFile::FailOnExisting : Field3DOutputFile::OverwriteMode);
      PBT_CHECK(ok == !(failMode && exists[f]), "reuse-create", "create() returned " << ok);
      if (prevEnc[o] >= 0 && prevEnc[o] != og) { c.nontrivial = true; c.label("output object changed encoding"); }
      if (ok) { prevEnc[o] = og; }
      if (!ok) {
        c.nontrivial = true; c.label("refused to replace");
        Rec r = {parts[0], layers[0], 1, 0, 0, 1, false};
        PBT_CHECK(!writeAny(out[o], r.part, r.layer, w.make(r)), "reuse-closed", "a write to an object without a file succeeded");
        PBT_CHECK(slurpFile(fn[f]) == before, "reuse-replace", "the existing file changed");
        break;
      }
      std::map<std::string, std::string> m0 = out[o].metadata().strMetadata();
      ct[f] = writeFile(s, c, w, out[o], og, 5, false, parts, layers);
      PBT_CHECK(out[o].close(), "io-close", "close() failed"); exists[f] = true;
      break;
    }
    case 1: {   // open and look
      int i = (int)s.below(2), f = (int)s.below(3);
      c << " open(in" << i << "," << f << ")";
      bool ok = in[i].open(fn[f]);
      PBT_CHECK(ok == exists[f], "reuse-open", "open() of " << (exists[f] ? "an existing" : "a missing") << " file returned " << ok);
      opened[i] = ok ? f : -1;
      if (!ok) { c.nontrivial = true; c.label("missing file"); std::vector<std::string> pn; in[i].getPartitionNames(pn); PBT_CHECK(pn.empty() && readAllAny(in[i], "", 1).empty(), "reuse-failed", "an object that failed to open shows layers"); break; }
      if (prevEnc[2 + i] >= 0 && prevEnc[2 + i] != ct[f].ogawa) { c.nontrivial = true; c.label("input object changed encoding"); }
      prevEnc[2 + i] = ct[f].ogawa;
      checkContent(s, w, in[i], ct[f], qp, ql);
      break;
    }
    case 2: { int i = (int)s.below(2); c << " open(in" << i << ",junk)"; PBT_CHECK(!in[i].open(junk), "reuse-open", "open() of a foreign file succeeded"); opened[i] = -1; c.nontrivial = true; break; }
    case 3: { int i = (int)s.below(2); c << " close(in" << i << ")"; in[i].close(); opened[i] = -1; break; }
    case 4: { int o = (int)s.below(2); c << " write(closed out" << o << ")"; Rec r = {parts[0], layers[0], (int)s.below(6), 0, 0, 1, false}; PBT_CHECK(!writeAny(out[o], r.part, r.layer, w.make(r)), "reuse-closed", "a write to a closed object succeeded"); break; }
    default: { int i = (int)s.below(2); c << " look(in" << i << ")"; if (opened[i] >= 0) { checkContent(s, w, in[i], ct[opened[i]], qp, ql); } break; }
    }
  }
}

static struct Init { Init() { pbt::workerInit = []() { initIO(); Msg::setVerbosity(0); farOrigin() = {8, 30}; H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }; } } g_init;
