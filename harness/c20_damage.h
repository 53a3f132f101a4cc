// Damaged files: shared by the harnesses of C20.
#pragma once
#include "roundtrip.h"
#include "Field3D/EmptyField.h"
#include <fstream>
#include <iterator>
namespace fx {

typedef std::vector<unsigned char> Bytes;
inline Bytes slurp(const std::string &f) { std::ifstream i(f.c_str(), std::ios::binary); return Bytes((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline void spill(const std::string &f, const Bytes &b) { std::ofstream o(f.c_str(), std::ios::binary); o.write((const char *)b.data(), b.size()); }

//! A complete file and what is in it
struct Victim
{
  bool ogawa; std::vector<AnyField> fs; std::vector<std::string> parts, names; std::string file;
  Bytes bytes;
};
inline Victim genVictim(Src &s, Ctx &c, bool ogawa, int maxLayers, const GenOpt &opt)
{
  Victim v; v.ogawa = ogawa; v.file = fileName(c, "ok.f3d");
  Field3DOutputFile::useOgawa(ogawa); setNumIOThreads(1);
  int n = (int)s.range(1, maxLayers); bool same = s.flip();
  Field3DOutputFile out;
  PBT_CHECK(out.create(v.file), "dmg-create", "create() failed");
  if (s.flip()) { out.metadata().setStrMetadata("s", "text"); out.metadata().setVecFloatMetadata("v", V3f(1, 2, 3)); out.writeGlobalMetadata(); }
  for (int i = 0; i < n; ++i) {
    AnyField f = genAny(s, opt);
    switch (s.below(3)) {
    case 0: f.f->setMapping(FieldMapping::Ptr(new NullFieldMapping)); break;
    case 1: f.f->setMapping(mkMatrix(genMatrixSpec(s))); break;
    default: f.f->setMapping(mkFrustum(genFrustumSpec(s)));
    }
    if (s.flip()) { f.f->metadata().setIntMetadata("i", 5); f.f->metadata().setVecIntMetadata("vi", V3i(1, 2, 3)); f.f->metadata().setFloatMetadata("f", 2.5f); }
    v.fs.push_back(f); v.parts.push_back(same ? "p" : "p" + std::to_string(i)); v.names.push_back("l" + std::to_string(i));
    PBT_CHECK(writeAny(out, v.parts[i], v.names[i], f), "dmg-write", "writing " << f.desc() << " failed");
    c << (i ? "; " : ogawa ? "Ogawa " : "HDF5 ") << f.desc();
  }
  PBT_CHECK(out.close(), "dmg-close", "close() failed");
  v.bytes = slurp(v.file);
  return v;
}

//! What became of a damaged file
struct Fate { bool opened = false; int refused = 0, fields = 0, threw = 0; };

template <class T> void useField(FieldRes::Ptr f, Src &s)
{
  typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f);
  if (!p) { return; }
  Box3i w = p->dataWindow();
  volatile double sink = 0;
  if (w.max.x >= w.min.x && w.max.y >= w.min.y && w.max.z >= w.min.z) {
    for (int q = 0; q < 40; ++q) {
      V3i v;
      for (int a = 0; a < 3; ++a) { v[a] = q < 8 ? ((q >> a) & 1 ? w.max[a] : w.min[a]) : (int)(w.min[a] + (int64_t)(mix(q * 3 + a) % (uint64_t)((int64_t)w.max[a] - w.min[a] + 1))); }
      T x = p->value(v.x, v.y, v.z);
      sink = sink + (double)Comp<T>::get(x, 0);
    }
  }
  if (p->mapping()) { V3d x; p->mapping()->voxelToWorld(V3d(0.5), x); p->mapping()->worldToVoxel(V3d(0.5), x); sink = sink + p->mapping()->wsVoxelSize(0, 0, 0).x; }
  sink = sink + p->memSize() + p->metadata().intMetadata("i", 0) + p->metadata().vecIntMetadata("vi", V3i(0)).x;
}
template <class F> void useMip(FieldRes::Ptr f, Src &s)
{
  typename MIPField<F>::Ptr m = field_dynamic_cast<MIPField<F> >(f);
  if (!m) { return; }
  for (size_t l = 0; l < m->numLevels() && l < 40; ++l) { useField<typename F::value_type>(m->mipLevel(l), s); }
}
#define DMG_TRY(EXPR) try { EXPR; } catch (std::exception &) { fate.threw++; }
template <class T, bool V> struct Prox { static size_t go(Field3DInputFile &i, const std::string &p, const std::string &l) { return i.readProxyLayer<T>(p, l, false).size() + i.readProxyScalarLayers<T>(l).size(); } };
template <class T> struct Prox<T, true> { static size_t go(Field3DInputFile &i, const std::string &p, const std::string &l) { return i.readProxyLayer<T>(p, l, true).size() + i.readProxyVectorLayers<T>(l).size(); } };

//! Opens the file and reads and uses all that it claims to have. Everything but an answer or
//! a std::exception is a violation; the sanitizer watches what is done on the way.
inline Fate exercise(Src &s, const std::string &fn, Field3DInputFile &in, bool dynamic)
{
  Fate fate;
  SparseFileManager::singleton().setLimitMemUse(dynamic);
  setNumIOThreads(1 + (int)s.below(3));
  try { fate.opened = in.open(fn); }
  catch (std::exception &e) { PBT_FAIL("dmg-open-threw", "open() of a damaged file let an exception out: " << e.what()); }
  catch (...) { PBT_FAIL("dmg-open-threw", "open() of a damaged file let an exception out"); }
  if (!fate.opened) { SparseFileManager::singleton().setLimitMemUse(false); return fate; }
  std::vector<std::string> parts, ln;
  in.getPartitionNames(parts);
  bool og = in.encoding() == "Ogawa";
  int budget = 40;
  for (auto &p : parts) {
    std::vector<std::string> l, k; in.getScalarLayerNames(l, p); in.getVectorLayerNames(k, p);
    for (auto &x : k) { if (std::find(l.begin(), l.end(), x) == l.end()) { l.push_back(x); } }
    for (auto &x : l) {
      if (budget-- < 0) { break; }
      for (int t = 0; t < 6; ++t) {
        std::vector<FieldRes::Ptr> got;
        DMG_TRY(got = og && (t & 1) ? readAnyOg(in, p, x, t) : readAny(in, p, x, t));
        withAny(t, [&](auto tt) { typedef decltype(tt) T;
          for (auto &f : got) {
            if (!f) { continue; }
            fate.fields++;
            DMG_TRY(useField<T>(f, s));
            DMG_TRY((useMip<DenseField<T> >(f, s)));
            DMG_TRY((useMip<SparseField<T> >(f, s)));
          }
          DMG_TRY((Prox<T, (Comp<T>::n > 1)>::go(in, p, x)));
        });
      }
    }
  }
  SparseFileManager::singleton().setLimitMemUse(false);
  return fate;
}
//! Asks again, voxel by voxel, after something could not be read: a block that was refused
//! must not turn into data on a later access
template <class T> void askAgain(const Field<T> &a, const Field<T> &b, const std::string &what, Fate &fate)
{
  if (a.dataWindow() != b.dataWindow()) { return; }
  Box3i w = a.dataWindow();
  for (int pass = 0; pass < 2; ++pass) {
    size_t threw = 0;
    forVox(w, [&](int i, int j, int k) {
      if (threw > 600) { return; }
      T x = a.value(i, j, k), y;
      try { y = b.value(i, j, k); } catch (std::exception &) { ++threw; return; }
      PBT_CHECK(bitSame(x, y), "dmg-retry", what << ": after a failed read, voxel (" << i << "," << j << "," << k << ") is " << vs(y) << ", written " << vs(x));
    });
    fate.threw += threw;
  }
}
template <class F> bool askMip(FieldRes::Ptr e, FieldRes::Ptr g, const std::string &what, Fate &fate)
{
  typename MIPField<F>::Ptr a = field_dynamic_cast<MIPField<F> >(e), b = field_dynamic_cast<MIPField<F> >(g);
  if (!a || !b || a->numLevels() != b->numLevels()) { return false; }
  for (size_t l = 0; l < a->numLevels(); ++l) {
    typename Field<typename F::value_type>::Ptr lvl;
    for (int pass = 0; pass < 2 && !lvl; ++pass) { try { lvl = b->mipLevel(l); } catch (std::exception &) { fate.threw++; } }
    if (lvl) { askAgain<typename F::value_type>(*a->mipLevel(l), *lvl, what, fate); }
  }
  return true;
}
inline void askAll(const AnyField &e, FieldRes::Ptr g, const std::string &what, Fate &fate)
{
  withAny(e.type, [&](auto t) { typedef decltype(t) T;
    if (askMip<DenseField<T> >(e.f, g, what, fate) || askMip<SparseField<T> >(e.f, g, what, fate)) { return; }
    typename Field<T>::Ptr a = field_dynamic_cast<Field<T> >(e.f), b = field_dynamic_cast<Field<T> >(g);
    if (a && b) { askAgain<T>(*a, *b, what, fate); }
  });
}
//! Each written layer is either refused or comes back exactly as it was written
inline Fate refusedOrEqual(Src &s, const Victim &v, const std::string &fn, Field3DInputFile &in, bool dynamic)
{
  Fate fate;
  SparseFileManager::singleton().setLimitMemUse(dynamic);
  setNumIOThreads(1 + (int)s.below(3));
  try { fate.opened = in.open(fn); }
  catch (std::exception &e) { PBT_FAIL("dmg-open-threw", "open() of a damaged file let an exception out: " << e.what()); }
  if (fate.opened) {
    for (size_t i = 0; i < v.fs.size(); ++i) {
      std::vector<FieldRes::Ptr> got;
      try { got = readAny(in, v.parts[i], v.names[i], v.fs[i].type); } catch (std::exception &) { fate.threw++; }
      if (got.empty()) { fate.refused++; continue; }
      PBT_CHECK(got.size() == 1, "dmg-count", "layer came back " << got.size() << " times");
      try { cmpField(v.fs[i], got[0], "damaged file, layer " + v.names[i] + " " + v.fs[i].desc()); fate.fields++; }
      catch (std::exception &) {                       // lazily read parts
        fate.threw++;
        askAll(v.fs[i], got[0], "damaged file, layer " + v.names[i] + " " + v.fs[i].desc(), fate);
      }
    }
  }
  SparseFileManager::singleton().setLimitMemUse(false);
  return fate;
}
//! The damage must not outlive the damaged file
inline void stillReads(const Victim &v, Field3DInputFile &in)
{
  PBT_CHECK(in.open(v.file), "dmg-after", "a complete file could not be opened after a damaged one");
  for (size_t i = 0; i < v.fs.size(); ++i) {
    auto got = readAny(in, v.parts[i], v.names[i], v.fs[i].type);
    PBT_CHECK(got.size() == 1, "dmg-after", "a layer of a complete file came back " << got.size() << " times after a damaged one was read");
    cmpField(v.fs[i], got[0], "complete file read after a damaged one, layer " + v.names[i] + " " + v.fs[i].desc());
  }
}

//----------------------------------------------------------------------------
// The tree of an Ogawa file
//----------------------------------------------------------------------------
struct OgTree
{
  struct Item { uint64_t pos, n; };                // n: children, or size
  std::vector<Item> groups, data; std::vector<uint64_t> ptrs;   // offsets of pointers
  std::vector<uint64_t> blockData;                 // indices into data: elements of compressed data sets
};
inline uint64_t rd64(const Bytes &b, uint64_t p) { uint64_t v = 0; if (p + 8 <= b.size()) { memcpy(&v, &b[p], 8); } return v; }
inline void wr64(Bytes &b, uint64_t p, uint64_t v) { if (p + 8 <= b.size()) { memcpy(&b[p], &v, 8); } }
inline void ogWalk(const Bytes &b, uint64_t pos, OgTree &t)
{
  uint64_t n = rd64(b, pos);
  t.groups.push_back({pos, n});
  int kind = -1;
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t at = pos + 8 + 8 * i, q = rd64(b, at);
    t.ptrs.push_back(at);
    if (q >> 63) {
      q &= ~(1ull << 63);
      if (!q) { continue; }
      if (i == 1 && rd64(b, q) == 4) { int k; memcpy(&k, &b[q + 8], 4); kind = k; }
      if (kind == 3 && i >= 3) { t.blockData.push_back(t.data.size()); }
      t.data.push_back({q, rd64(b, q)});
    } else if (q) { ogWalk(b, q, t); }
  }
}
inline OgTree ogTree(const Bytes &b) { OgTree t; ogWalk(b, rd64(b, 8), t); return t; }

} // namespace fx
