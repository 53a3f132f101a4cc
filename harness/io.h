// Generators and comparisons shared by the file harnesses.
#pragma once
#include "common.h"
#include "Field3D/MIPField.h"
#include "Field3D/MIPUtil.h"
#include "Field3D/Field3DFile.h"
#include <hdf5.h>

namespace fx {

enum Cls { kDense, kSparse, kMAC, kMIPDense, kMIPSparse };
inline const char *clsName(int c) { static const char *n[] = {"Dense", "Sparse", "MAC", "MIPDense", "MIPSparse"}; return n[c]; }

template <class T> void genRawGrid(Src &s, const Box3i &b, Grid<T> &g)
{
  genGrid(s, b, g);
  if (s.chance(35)) {
    uint64_t seed = s.below(1u << 30); int mod = (int)s.range(1, 6);
    forVox(b, [&](int i, int j, int k) { uint64_t h = vhash(seed, i, j, k); if (h % mod == 0) { g.at(i, j, k) = rawVal<T>(h); } });
  }
}

//! A generated field: kept behind its base pointer, with what is needed to write it
struct AnyField
{
  FieldRes::Ptr f; int cls, type; size_t vox, blocks;
  std::string desc() const { return std::string(clsName(cls)) + "<" + typeName(type) + "> ext " + bs(f->extents()) + " dw " + bs(f->dataWindow()); }
};

template <class T> typename DenseField<T>::Ptr genDense(Src &s, const Def &d)
{
  typename DenseField<T>::Ptr f(new DenseField<T>);
  f->setSize(d.ext, d.dw);
  Grid<T> g; genRawGrid(s, d.dw, g); toField(g, *f);
  return f;
}
template <class T> typename SparseField<T>::Ptr genSparse(Src &s, const Def &d, int order, size_t *blocks = 0)
{
  typename SparseField<T>::Ptr f(new SparseField<T>);
  f->setBlockOrder(order);
  f->setSize(d.ext, d.dw);
  T bg = s.flip() ? mkVal<T>(s.below(100)) : mkConst<T>(0);
  f->clear(bg);
  switch (s.weighted({3, 3, 1, 1})) {
  case 0: { Grid<T> g; genGrid(s, d.dw, g, 1 + 2 * (int)s.below(2)); toFieldSparse(g, *f, mkConst<T>(0)); break; }
  case 1: { Grid<T> g; genRawGrid(s, d.dw, g); toFieldSparse(g, *f, bg); break; }
  case 2: break;   // nothing allocated
  default: { Grid<T> g; genRawGrid(s, d.dw, g); toField(g, *f); }
  }
  V3i r = f->blockRes();
  if (s.flip()) {
    int n = (int)s.range(1, 6);
    for (int q = 0; q < n; ++q) {
      int bi = (int)s.below(r.x), bj = (int)s.below(r.y), bk = (int)s.below(r.z);
      if (!f->blockIsAllocated(bi, bj, bk)) { f->setBlockEmptyValue(bi, bj, bk, rawVal<T>(s.below(1000))); }
    }
  }
  if (blocks) { for (int k = 0; k < r.z; ++k) for (int j = 0; j < r.y; ++j) for (int i = 0; i < r.x; ++i) { *blocks += f->blockIsAllocated(i, j, k); } }
  return f;
}
template <class T> typename MACField<T>::Ptr genMAC(Src &s, const Def &d)
{
  typename MACField<T>::Ptr f(new MACField<T>);
  typedef typename Comp<T>::type R;
  f->setSize(d.ext, d.dw);
  uint64_t seed = s.below(1u << 30);
  Box3i b = d.dw; b.max.x++; forVox(b, [&](int i, int j, int k) { f->u(i, j, k) = mkVal<R>(vhash(seed, i, j, k)); });
  b = d.dw; b.max.y++; forVox(b, [&](int i, int j, int k) { f->v(i, j, k) = mkVal<R>(vhash(seed + 1, i, j, k)); });
  b = d.dw; b.max.z++; forVox(b, [&](int i, int j, int k) { f->w(i, j, k) = mkVal<R>(vhash(seed + 2, i, j, k)); });
  return f;
}
//! Levels are generated directly, so that file code is all that is exercised
template <class F, template <class> class M> FieldRes::Ptr genMIP(Src &s, int order)
{
  typedef typename F::value_type T;
  typename M<T>::Ptr m(new M<T>);
  std::vector<typename F::Ptr> v;
  V3i off(0); if (s.flip()) { for (int a = 0; a < 3; ++a) { off[a] = (int)s.around0(-6, 6); } }
  V3i r, o = off; for (int a = 0; a < 3; ++a) { r[a] = (int)s.range(2, 12); }
  int n = (int)s.range(1, 4);
  for (int l = 0; l < n; ++l) {
    Grid<T> g; genRawGrid(s, zbox(r), g);
    typename F::Ptr f(new F);
    SparseField<T> *sp = dynamic_cast<SparseField<T> *>(f.get());
    if (sp) { sp->setBlockOrder(order); }
    f->setSize(zbox(r)); f->clear(mkConst<T>(0)); toFieldSparse(g, *f, mkConst<T>(0));
    v.push_back(f);
    V3i q; for (int a = 0; a < 3; ++a) { q[a] = (r[a] + (o[a] & 1) + 1) / 2; o[a] = o[a] >> 1; }
    if (q == r) { break; }
    r = q;
  }
  m->setMIPOffset(off);
  m->setup(v);
  return m;
}
struct GenOpt { int maxRes = 18; unsigned classes = 0x1f; unsigned types = 0x3f; int maxOrder = 5; };
template <class T> FieldRes::Ptr genOfClass(Src &s, int cls, const GenOpt &o, size_t *blocks)
{
  if (cls == kMIPDense) { return genMIP<DenseField<T>, MIPDenseField>(s, 0); }
  if (cls == kMIPSparse) { return genMIP<SparseField<T>, MIPSparseField>(s, (int)s.range(1, 4)); }
  Def d = genDef(s, o.maxRes);
  if (cls == kDense) { return genDense<T>(s, d); }
  return genSparse<T>(s, d, (int)s.range(1, o.maxOrder), blocks);
}
inline AnyField genAny(Src &s, const GenOpt &o = GenOpt())
{
  AnyField r; r.blocks = 0;
  std::vector<int> cl; for (int i = 0; i < 5; ++i) { if (o.classes & (1u << i)) { cl.push_back(i); } }
  r.cls = s.pick(cl);
  std::vector<int> ty; for (int i = 0; i < 6; ++i) { if ((o.types & (1u << i)) && (r.cls != kMAC || i >= 3)) { ty.push_back(i); } }
  r.type = s.pick(ty);
  if (r.cls == kMAC) { withVector(r.type, [&](auto t) { typedef decltype(t) T; r.f = genMAC<T>(s, genDef(s, o.maxRes)); }); }
  else { withAny(r.type, [&](auto t) { typedef decltype(t) T; r.f = genOfClass<T>(s, r.cls, o, &r.blocks); }); }
  r.vox = vol(r.f->dataWindow());
  return r;
}

//----------------------------------------------------------------------------
// Comparison: the two must agree in everything a reader can observe
//----------------------------------------------------------------------------
#define FX_CMP(COND, SIG, MSG) PBT_CHECK(COND, SIG, what << ": " << MSG)
template <class T> void cmpVoxels(const Field<T> &a, const Field<T> &b, const std::string &what)
{
  FX_CMP(a.extents() == b.extents(), "io-extents", "extents " << bs(b.extents()) << ", written " << bs(a.extents()));
  FX_CMP(a.dataWindow() == b.dataWindow(), "io-window", "data window " << bs(b.dataWindow()) << ", written " << bs(a.dataWindow()));
  forVox(a.dataWindow(), [&](int i, int j, int k) {
    T x = a.value(i, j, k), y = b.value(i, j, k);
    if (!bitSame(x, y)) { PBT_FAIL("io-voxel", what << ": voxel (" << i << "," << j << "," << k << ") is " << vs(y) << ", written " << vs(x)); }
  });
}
template <class T> void cmpSparse(const SparseField<T> &a, const SparseField<T> &b, const std::string &what)
{
  FX_CMP(a.blockOrder() == b.blockOrder(), "io-order", "block order " << b.blockOrder() << ", written " << a.blockOrder());
  FX_CMP(a.blockRes() == b.blockRes(), "io-order", "block resolution " << vs(b.blockRes()) << ", written " << vs(a.blockRes()));
  V3i r = a.blockRes();
  forVox(zbox(r), [&](int i, int j, int k) {
    FX_CMP(a.blockIsAllocated(i, j, k) == b.blockIsAllocated(i, j, k), "io-alloc", "block (" << i << "," << j << "," << k << ") allocated: " << b.blockIsAllocated(i, j, k));
    T x = a.getBlockEmptyValue(i, j, k), y = b.getBlockEmptyValue(i, j, k);
    FX_CMP(a.blockIsAllocated(i, j, k) || bitSame(x, y), "io-empty", "block (" << i << "," << j << "," << k << ") has empty value " << vs(y) << ", written " << vs(x));
  });
}
template <class T, bool V> struct CmpMAC { static bool go(FieldRes::Ptr, FieldRes::Ptr, const std::string &) { return false; } };
template <class T> struct CmpMAC<T, true> { static bool go(FieldRes::Ptr e, FieldRes::Ptr g, const std::string &what)
  {
    typename MACField<T>::Ptr a = field_dynamic_cast<MACField<T> >(e), b = field_dynamic_cast<MACField<T> >(g);
    if (!a) { return false; }
    FX_CMP(b, "io-class", "a " << g->className() << " came back, not a MACField");
    cmpVoxels<T>(*a, *b, what);
    Box3i w = a->dataWindow();
    Box3i q = w; q.max.x++; forVox(q, [&](int i, int j, int k) { bool same_ = bitSame(a->u(i, j, k), b->u(i, j, k)); FX_CMP(same_, "io-face", "u face (" << i << "," << j << "," << k << ")"); });
    q = w; q.max.y++; forVox(q, [&](int i, int j, int k) { bool same_ = bitSame(a->v(i, j, k), b->v(i, j, k)); FX_CMP(same_, "io-face", "v face (" << i << "," << j << "," << k << ")"); });
    q = w; q.max.z++; forVox(q, [&](int i, int j, int k) { bool same_ = bitSame(a->w(i, j, k), b->w(i, j, k)); FX_CMP(same_, "io-face", "w face (" << i << "," << j << "," << k << ")"); });
    return true;
  } };
template <class F> bool cmpMIP(FieldRes::Ptr e, FieldRes::Ptr g, const std::string &what);
template <class T> void cmpTyped(FieldRes::Ptr e, FieldRes::Ptr g, const std::string &what)
{
  typename Field<T>::Ptr fe = field_dynamic_cast<Field<T> >(e), fg = field_dynamic_cast<Field<T> >(g);
  FX_CMP(fg, "io-type", "voxel type differs (" << g->className() << ")");
  FX_CMP(e->className() == g->className(), "io-class", "a " << g->className() << " came back, a " << e->className() << " was written");
  if (cmpMIP<DenseField<T> >(e, g, what) || cmpMIP<SparseField<T> >(e, g, what)) { return; }
  if (CmpMAC<T, (Comp<T>::n > 1)>::go(e, g, what)) { return; }
  cmpVoxels<T>(*fe, *fg, what);
  typename SparseField<T>::Ptr a = field_dynamic_cast<SparseField<T> >(e), b = field_dynamic_cast<SparseField<T> >(g);
  FX_CMP(!a == !b, "io-class", "sparse became something else");
  if (a) { cmpSparse<T>(*a, *b, what); }
}
template <class F> bool cmpMIP(FieldRes::Ptr e, FieldRes::Ptr g, const std::string &what)
{
  typedef typename F::value_type T;
  typename MIPField<F>::Ptr a = field_dynamic_cast<MIPField<F> >(e), b = field_dynamic_cast<MIPField<F> >(g);
  if (!a) { return false; }
  FX_CMP(b, "io-class", "a " << g->className() << " came back instead of a MIP field");
  FX_CMP(a->numLevels() == b->numLevels(), "io-levels", b->numLevels() << " levels, written " << a->numLevels());
  FX_CMP(a->mipOffset() == b->mipOffset(), "io-mipoffset", "MIP offset " << vs(b->mipOffset()) << ", written " << vs(a->mipOffset()));
  FX_CMP(a->extents() == b->extents() && a->dataWindow() == b->dataWindow(), "io-extents", "extents " << bs(b->extents()) << ", written " << bs(a->extents()));
  for (size_t l = 0; l < a->numLevels(); ++l) {
    FX_CMP(a->mipResolution(l) == b->mipResolution(l), "io-levels", "level " << l << " has resolution " << vs(b->mipResolution(l)));
  }
  // coarse to fine or fine to coarse: loading order must not matter
  for (size_t q = 0; q < a->numLevels(); ++q) {
    size_t l = (e->extents().max.x & 1) ? q : a->numLevels() - 1 - q;
    std::ostringstream w; w << what << " level " << l;
    cmpVoxels<T>(*a->mipLevel(l), *b->mipLevel(l), w.str());
    SparseField<T> *sa = dynamic_cast<SparseField<T> *>(a->mipLevel(l).get()), *sb = dynamic_cast<SparseField<T> *>(b->mipLevel(l).get());
    PBT_CHECK(!sa == !sb, "io-class", w.str() << ": level class");
    if (sa) { cmpSparse<T>(*sa, *sb, w.str()); }
  }
  return true;
}
inline void cmpField(const AnyField &e, FieldRes::Ptr g, const std::string &what)
{
  PBT_CHECK(g, "io-null", what << ": null field");
  withAny(e.type, [&](auto t) { cmpTyped<decltype(t)>(e.f, g, what); });
}

//----------------------------------------------------------------------------
// Reading and writing by voxel type
//----------------------------------------------------------------------------
template <class T, bool V> struct WriteHdf { static bool go(Field3DOutputFile &o, const std::string &n, const std::string &a, FieldRes::Ptr f)
  { typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); return o.writeScalarLayer<T>(n, a, p); } };
template <class T> struct WriteHdf<T, true> { static bool go(Field3DOutputFile &o, const std::string &n, const std::string &a, FieldRes::Ptr f)
  { typedef typename Comp<T>::type S; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); return o.writeVectorLayer<S>(n, a, p); } };
//! Through the calls that exist for both encodings
inline bool writeAny(Field3DOutputFile &o, const std::string &name, const std::string &attr, const AnyField &f)
{
  bool r = false;
  withAny(f.type, [&](auto t) { typedef decltype(t) T; r = WriteHdf<T, (Comp<T>::n > 1)>::go(o, name, attr, f.f); });
  return r;
}
//! Through the Ogawa-only call
inline bool writeAnyOg(Field3DOutputFile &o, const std::string &name, const std::string &attr, const AnyField &f)
{
  bool r = false;
  withAny(f.type, [&](auto t) { typedef decltype(t) T; r = o.writeLayer<T>(name, attr, field_dynamic_cast<Field<T> >(f.f)); });
  return r;
}
template <class T, bool V> struct ReadHdf { static void go(Field3DInputFile &i, const std::string &n, const std::string &a, std::vector<FieldRes::Ptr> &r)
  { for (auto p : i.readScalarLayers<T>(n, a)) { r.push_back(p); } } };
template <class T> struct ReadHdf<T, true> { static void go(Field3DInputFile &i, const std::string &n, const std::string &a, std::vector<FieldRes::Ptr> &r)
  { typedef typename Comp<T>::type S; for (auto p : i.readVectorLayers<S>(n, a)) { r.push_back(p); } } };
inline std::vector<FieldRes::Ptr> readAny(Field3DInputFile &in, const std::string &name, const std::string &attr, int type)
{
  std::vector<FieldRes::Ptr> r;
  withAny(type, [&](auto t) { typedef decltype(t) T; ReadHdf<T, (Comp<T>::n > 1)>::go(in, name, attr, r); });
  return r;
}
inline std::vector<FieldRes::Ptr> readAnyOg(Field3DInputFile &in, const std::string &name, const std::string &attr, int type)
{
  std::vector<FieldRes::Ptr> r;
  withAny(type, [&](auto t) { typedef decltype(t) T; for (auto p : in.readLayers<T>(name, attr)) { r.push_back(p); } });
  return r;
}
template <class T, bool V> struct ReadAllHdf { static void go(Field3DInputFile &i, const std::string &a, std::vector<FieldRes::Ptr> &r)
  { for (auto p : i.readScalarLayers<T>(a)) { r.push_back(p); } } };
template <class T> struct ReadAllHdf<T, true> { static void go(Field3DInputFile &i, const std::string &a, std::vector<FieldRes::Ptr> &r)
  { typedef typename Comp<T>::type S; for (auto p : i.readVectorLayers<S>(a)) { r.push_back(p); } } };
inline std::vector<FieldRes::Ptr> readAllAny(Field3DInputFile &in, const std::string &attr, int type)
{
  std::vector<FieldRes::Ptr> r;
  withAny(type, [&](auto t) { typedef decltype(t) T; ReadAllHdf<T, (Comp<T>::n > 1)>::go(in, attr, r); });
  return r;
}
//! Restores the I/O settings that are global to the process
struct IOReset
{
  ~IOReset() { Field3DOutputFile::useOgawa(true); setNumIOThreads(1); SparseFileManager::singleton().setLimitMemUse(false); }
};

} // namespace fx
