// Round trips of whole layers, shared by the two encodings.
#pragma once
#include "io.h"
namespace fx {
inline std::string fileName(Ctx &c, const char *base = "a.f3d") { return c.scratch + "/" + base; }

inline void roundTrip(Src &s, Ctx &c, const GenOpt &opt, int maxLayers, bool ogawa)
{
  IOReset rst; Field3DOutputFile::useOgawa(ogawa);
  setNumIOThreads((int)s.range(1, 4));
  std::string fn = fileName(c);
  int n = (int)s.range(1, maxLayers);
  std::vector<AnyField> fs; std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    fs.push_back(genAny(s, opt));
    std::ostringstream o; o << "layer" << i; names.push_back(o.str());
    c << (i ? "; " : "") << fs.back().desc(); c.label(clsName(fs.back().cls));
    if (fs.back().vox > 1) { c.nontrivial = true; }
  }
  bool viaOg = ogawa && s.flip(), samePart = s.flip();
  {
    Field3DOutputFile out;
    PBT_CHECK(out.create(fn), "io-create", "create() failed");
    for (int i = 0; i < n; ++i) {
      std::string p = samePart ? "part" : "part" + names[i];
      bool ok = viaOg ? writeAnyOg(out, p, names[i], fs[i]) : writeAny(out, p, names[i], fs[i]);
      if (ogawa && fs[i].cls == kMAC) { PBT_CHECK(!ok, "io-mac-claimed", "a MAC field, which this format cannot hold, was reported as written"); continue; }
      PBT_CHECK(ok, "io-write", "writing " << fs[i].desc() << " failed");
    }
    if (s.flip()) { PBT_CHECK(out.close(), "io-close", "close() failed"); }
  }
  std::vector<FieldRes::Ptr> keep;
  int passes = (int)s.range(1, 2);
  for (int pass = 0; pass < passes; ++pass) {
    Field3DInputFile in;
    PBT_CHECK(in.open(fn), "io-open", "open() failed on a complete file");
    PBT_CHECK(in.encoding() == (ogawa ? "Ogawa" : "HDF5"), "io-encoding", "encoding() is " << in.encoding());
    std::vector<int> order; for (int i = 0; i < n; ++i) { order.push_back(i); }
    for (int i = n - 1; i > 0; --i) { std::swap(order[i], order[s.below(i + 1)]); }
    for (int i : order) {
      std::string p = samePart ? "part" : "part" + names[i];
      bool og = ogawa && s.flip();
      auto got = og ? readAnyOg(in, p, names[i], fs[i].type) : readAny(in, p, names[i], fs[i].type);
      if (ogawa && fs[i].cls == kMAC) { PBT_CHECK(got.empty(), "io-mac-claimed", "a layer that was refused came back"); continue; }
      PBT_CHECK(got.size() == 1, "io-count", "layer " << names[i] << " (" << fs[i].desc() << ") came back " << got.size() << " times");
      cmpField(fs[i], got[0], "layer " + names[i] + " " + fs[i].desc());
      PBT_CHECK(got[0]->name == p && got[0]->attribute == names[i], "io-name", "came back as " << got[0]->name << ":" << got[0]->attribute);
      int other = (fs[i].type + 1 + (int)s.below(5)) % 6;
      auto none = og ? readAnyOg(in, p, names[i], other) : readAny(in, p, names[i], other);
      PBT_CHECK(none.empty(), "io-wrongtype", "a " << typeName(fs[i].type) << " layer came back as " << typeName(other));
      if (s.flip()) { keep.push_back(got[0]); }
    }
    in.close();
    if (passes == 2 && s.flip()) { keep.clear(); }
  }
}
inline void rewriteTrip(Src &s, Ctx &c, bool ogawa)
{
  IOReset rst; Field3DOutputFile::useOgawa(ogawa);
  std::string fn = fileName(c);
  int n = (int)s.range(2, 4); GenOpt o; o.maxRes = 8; if (ogawa) { o.classes &= ~(1u << kMAC); }
  bool shared = s.flip();
  Field3DOutputFile sharedOut; Field3DInputFile sharedIn;
  for (int i = 0; i < n; ++i) {
    AnyField f = genAny(s, o);
    c << (i ? "; " : "") << f.desc();
    {
      Field3DOutputFile own; Field3DOutputFile &out = shared ? sharedOut : own;
      PBT_CHECK(out.create(fn), "io-create", "create() failed");
      PBT_CHECK(writeAny(out, "p", "l", f), "io-write", "writing " << f.desc() << " failed");
      PBT_CHECK(out.close(), "io-close", "close() failed");
    }
    Field3DInputFile own; Field3DInputFile &in = shared ? sharedIn : own;
    PBT_CHECK(in.open(fn), "io-open", "open() failed");
    std::vector<std::string> pn; in.getPartitionNames(pn);
    PBT_CHECK(pn.size() == 1 && pn[0] == "p", "io-partitions", "file " << i << " lists " << pn.size() << " partitions");
    auto got = readAny(in, "p", "l", f.type);
    PBT_CHECK(got.size() == 1, "io-count", "layer came back " << got.size() << " times");
    cmpField(f, got[0], "contents " + std::to_string(i) + " " + f.desc());
    got.clear();
    in.close();
  }
  c.nontrivial = true;
}
// Fields larger than what the readers take in at once (50 MB), with empty blocks in between.
template <class T> void hugeTripT(Src &s, Ctx &c, bool ogawa, int order)
{
  IOReset rst; Field3DOutputFile::useOgawa(ogawa);
  setNumIOThreads((int)s.range(1, 8));
  std::string fn = fileName(c);
  size_t blockBytes = sizeof(T) << (3 * order);
  int want = (int)(55.0 * 1024 * 1024 / blockBytes) + (int)s.range(1, 8);       // blocks to allocate
  int gap = (int)s.range(0, 3), total = want + want * gap / 2, bx = (int)s.range(1, 4), by = (int)s.range(1, 3), bz = (total + bx * by - 1) / (bx * by);
  int side = 1 << order, cut = (int)s.range(0, side - 1);
  V3i org((int)s.range(-5, 5), (int)s.range(-5, 5), (int)s.range(-5, 5));
  Box3i dw(org, org + V3i(bx * side - 1 - cut, by * side - 1 - (cut & 3), bz * side - 1 - cut / 2));
  typename SparseField<T>::Ptr f(new SparseField<T>);
  f->setBlockOrder(order); f->setSize(dw); f->clear(mkVal<T>(77));
  f->name = "p"; f->attribute = "l";
  uint64_t seed = s.below(1 << 30);
  int nb = bx * by * bz, alloc = 0;
  std::vector<std::pair<V3i, T> > put;
  std::vector<char> state(nb, 0);
  int skipFirst = (int)s.range(0, 2);
  for (int b = 0; b < nb; ++b) {
    V3i bp(b % bx, b / bx % by, b / (bx * by));
    if (b < skipFirst || (int)(mix(seed + b) % (2 + gap)) >= 2 || alloc >= want) {
      T e = rawVal<T>(mix(seed * 3 + b)); f->setBlockEmptyValue(bp.x, bp.y, bp.z, e);
      put.push_back(std::make_pair(dw.min + bp * side, e));
      continue;
    }
    ++alloc; state[b] = 1;
    for (int q = 0; q < 12; ++q) {
      uint64_t h = mix(seed * 31 + b * 64 + q);
      V3i lo = dw.min + bp * side, hi(std::min(lo.x + side - 1, dw.max.x), std::min(lo.y + side - 1, dw.max.y), std::min(lo.z + side - 1, dw.max.z));
      V3i p(lo.x + (int)(h % (hi.x - lo.x + 1)), lo.y + (int)((h >> 16) % (hi.y - lo.y + 1)), lo.z + (int)((h >> 32) % (hi.z - lo.z + 1)));
      T v = rawVal<T>(h);
      f->fastLValue(p.x, p.y, p.z) = v;
    }
    for (int q = 0; q < 12; ++q) {
      uint64_t h = mix(seed * 31 + b * 64 + q);
      V3i lo = dw.min + bp * side, hi(std::min(lo.x + side - 1, dw.max.x), std::min(lo.y + side - 1, dw.max.y), std::min(lo.z + side - 1, dw.max.z));
      V3i p(lo.x + (int)(h % (hi.x - lo.x + 1)), lo.y + (int)((h >> 16) % (hi.y - lo.y + 1)), lo.z + (int)((h >> 32) % (hi.z - lo.z + 1)));
      put.push_back(std::make_pair(p, f->fastValue(p.x, p.y, p.z)));
    }
  }
  size_t mb = alloc * blockBytes >> 20;
  c << (Comp<T>::n > 1 ? "vector" : "scalar") << sizeof(T) << " order " << order << ", " << bx << "x" << by << "x" << bz << " blocks, " << alloc << " allocated (" << mb << " MB), seed " << seed;
  if (mb >= 50 && alloc < nb) { c.nontrivial = true; }
  {
    Field3DOutputFile out;
    PBT_CHECK(out.create(fn), "io-create", "create() failed");
    bool ok = WriteHdf<T, (Comp<T>::n > 1)>::go(out, "p", "l", f);
    PBT_CHECK(ok, "io-write", "writing a field of " << mb << " MB failed");
    PBT_CHECK(out.close(), "io-close", "close() failed");
  }
  f = nullptr;
  bool dynamic = s.chance(25);
  SparseFileManager::singleton().setLimitMemUse(dynamic);
  if (dynamic) { SparseFileManager::singleton().setMaxMemUse(8); c << ", loaded dynamically"; }
  Field3DInputFile in;
  PBT_CHECK(in.open(fn), "io-open", "open() failed on a complete file");
  std::vector<FieldRes::Ptr> got; ReadHdf<T, (Comp<T>::n > 1)>::go(in, "p", "l", got);
  PBT_CHECK(got.size() == 1, "io-count", "the layer came back " << got.size() << " times");
  typename SparseField<T>::Ptr g = field_dynamic_cast<SparseField<T> >(got[0]);
  PBT_CHECK(g, "io-class", "came back as another class");
  PBT_CHECK(g->dataWindow() == dw && g->blockOrder() == order, "io-size", "another data window or block order");
  for (int b = 0; b < nb; ++b) {
    PBT_CHECK(g->blockIsAllocated(b % bx, b / bx % by, b / (bx * by)) == (state[b] != 0), "io-alloc", "block " << b << (state[b] ? " isn't" : " is") << " allocated after reading");
  }
  for (size_t i = 0; i < put.size(); ++i) {
    const V3i &p = put[i].first; T v = g->fastValue(p.x, p.y, p.z);
    PBT_CHECK(memcmp((const void *)&v, (const void *)&put[i].second, sizeof(T)) == 0, "io-value", "voxel " << p << " is " << v << " instead of " << put[i].second);
  }
  for (int q = 0; q < 3000; ++q) {                     // others of the allocated blocks keep the cleared value, or one of the values put
    uint64_t h = mix(seed * 7 + q); int b = (int)(h % nb); if (!state[b]) { continue; }
    V3i lo = dw.min + V3i(b % bx, b / bx % by, b / (bx * by)) * side, hi(std::min(lo.x + side - 1, dw.max.x), std::min(lo.y + side - 1, dw.max.y), std::min(lo.z + side - 1, dw.max.z));
    V3i p(lo.x + (int)((h >> 8) % (hi.x - lo.x + 1)), lo.y + (int)((h >> 24) % (hi.y - lo.y + 1)), lo.z + (int)((h >> 40) % (hi.z - lo.z + 1)));
    bool known = false; for (size_t i = 0; i < put.size() && !known; ++i) { known = put[i].first == p; }
    T v = g->fastValue(p.x, p.y, p.z), e = mkVal<T>(77);
    PBT_CHECK(known || memcmp((const void *)&v, (const void *)&e, sizeof(T)) == 0, "io-value", "voxel " << p << " is " << v << " instead of " << e);
  }
}
inline void hugeTrip(Src &s, Ctx &c, bool ogawa)
{
  switch (s.below(4)) {
  case 0: hugeTripT<float>(s, c, ogawa, (int)s.range(6, 7)); break;
  case 1: hugeTripT<V3f>(s, c, ogawa, 6); break;
  case 2: hugeTripT<double>(s, c, ogawa, 6); break;
  default: hugeTripT<V3d>(s, c, ogawa, (int)s.range(5, 6)); break;
  }
}
} // namespace fx
