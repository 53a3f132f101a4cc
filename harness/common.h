// Generators and helpers shared by the harnesses.
#pragma once
#include "pbt.h"
#include <boost/thread/thread.hpp>
#include <boost/intrusive_ptr.hpp>
#include <cfloat>
#include "Field3D/Field.h"
#include "Field3D/FieldInterp.h"   // before SparseField.h, whose interpolator needs its operators
#include "Field3D/DenseField.h"
#include "Field3D/SparseField.h"
#include "Field3D/MACField.h"
#include "Field3D/EmptyField.h"
#include "Field3D/ProceduralField.h"
#include "Field3D/FieldMapping.h"
#include "Field3D/InitIO.h"
#include "Field3D/Log.h"
#include "Field3D/SparseFile.h"
#include "Field3D/FieldCache.h"
#include "Field3D/Types.h"
#include <sys/stat.h>
#include <unistd.h>

using namespace Field3D;

namespace fx {
using pbt::Src; using pbt::Ctx; using pbt::mix; using pbt::hcomb;

//----------------------------------------------------------------------------
// Printing
//----------------------------------------------------------------------------
inline std::string bs(const Box3i &b)
{
  std::ostringstream o;
  o << "[" << b.min.x << "," << b.min.y << "," << b.min.z << ".." << b.max.x << "," << b.max.y << "," << b.max.z << "]";
  return o.str();
}
template <class T> std::string vs(const Imath::Vec3<T> &v)
{
  std::ostringstream o; o.precision(10); o << "(" << v.x << "," << v.y << "," << v.z << ")"; return o.str();
}
inline std::string vs(half v) { std::ostringstream o; o << (float)v; return o.str(); }
inline std::string vs(float v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }
inline std::string vs(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string vs(int v) { std::ostringstream o; o << v; return o.str(); }

//----------------------------------------------------------------------------
// Voxel values
//----------------------------------------------------------------------------
template <class T> struct Comp { typedef T type; static const int n = 1;
  static double get(const T &v, int) { return (double)v; } static void set(T &v, int, double d) { v = (T)d; } };
template <> struct Comp<half> { typedef half type; static const int n = 1;
  static double get(const half &v, int) { return (double)(float)v; } static void set(half &v, int, double d) { v = half((float)d); } };
template <class S> struct Comp<Imath::Vec3<S> > { typedef S type; static const int n = 3;
  static double get(const Imath::Vec3<S> &v, int i) { return Comp<S>::get(v[i], 0); }
  static void set(Imath::Vec3<S> &v, int i, double d) { Comp<S>::set(v[i], 0, d); } };

//! Value from a hash; exactly representable in every voxel type
template <class T> T mkVal(uint64_t h)
{
  T v;
  for (int i = 0; i < Comp<T>::n; ++i) {
    uint64_t m = mix(h + 0x1234567 * (i + 1));
    Comp<T>::set(v, i, ((double)(m % 4001) - 2000.0) / 16.0);
  }
  return v;
}
template <class T> T mkConst(double d) { T v; for (int i = 0; i < Comp<T>::n; ++i) { Comp<T>::set(v, i, d); } return v; }
inline uint64_t vhash(uint64_t seed, int i, int j, int k)
{ return hcomb(hcomb(hcomb(seed, (uint64_t)(int64_t)i), (uint64_t)(int64_t)j), (uint64_t)(int64_t)k); }

template <class T> bool same(const T &a, const T &b)
{
  for (int i = 0; i < Comp<T>::n; ++i) {
    double x = Comp<T>::get(a, i), y = Comp<T>::get(b, i);
    if (!(x == y || (x != x && y != y))) { return false; }
  }
  return true;
}
//! Voxel values of any bit pattern class: ordinary, extreme, special
template <class T> T rawVal(uint64_t h)
{
  T v = mkVal<T>(h);
  for (int i = 0; i < Comp<T>::n; ++i) {
    uint64_t m = mix(h * 31 + i);
    switch (m % 12) {
    case 0: Comp<T>::set(v, i, std::numeric_limits<double>::infinity()); break;
    case 1: Comp<T>::set(v, i, -std::numeric_limits<double>::infinity()); break;
    case 2: Comp<T>::set(v, i, std::numeric_limits<double>::quiet_NaN()); break;
    case 3: Comp<T>::set(v, i, -0.0); break;
    case 4: Comp<T>::set(v, i, 6e-8); break;                     // denormal as half
    case 5: Comp<T>::set(v, i, sizeof(typename Comp<T>::type) == 2 ? 65504.0 : sizeof(typename Comp<T>::type) == 4 ? 3.4028234663852886e38 : 1.7e308); break;
    case 6: Comp<T>::set(v, i, sizeof(typename Comp<T>::type) == 8 ? 5e-324 : sizeof(typename Comp<T>::type) == 4 ? 1.4e-45 : -6e-8); break;
    case 7: Comp<T>::set(v, i, (double)(int64_t)m / 3.0e15); break;
    default: break;
    }
  }
  return v;
}
template <class T> bool bitSame(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
//! Ordinary values mostly, otherwise special ones, in all components or in some
template <class T> T anyVal(uint64_t h)
{
  static const double sp[] = {-0.0, -0.0, 0.0, INFINITY, -INFINITY, NAN, 6e-8, 1.0};
  uint64_t m = mix(h ^ 0x5eed);
  if (m % 5 == 0) { return mkConst<T>(sp[(m >> 8) % 8]); }
  if (m % 5 == 1) { return rawVal<T>(h); }
  return mkVal<T>(h);
}
//! Relative difference of the worst component
template <class A, class B> double diff(const A &a, const B &b)
{
  double m = 0;
  for (int i = 0; i < Comp<A>::n; ++i) {
    double x = Comp<A>::get(a, i), y = Comp<B>::get(b, i), d = fabs(x - y);
    if (x != x || y != y) { return (x != x && y != y) ? m : 1e300; }
    if (d > m) { m = d; }
  }
  return m;
}

//----------------------------------------------------------------------------
// Boxes
//----------------------------------------------------------------------------
inline V3i dims(const Box3i &b) { return b.max - b.min + V3i(1); }
inline size_t vol(const Box3i &b) { if (b.isEmpty()) { return 0; } V3i d = dims(b); return (size_t)d.x * d.y * d.z; }
inline Box3i zbox(const V3i &res) { return Box3i(V3i(0), res - V3i(1)); }
inline V3i genRes(Src &s, int maxRes)
{
  V3i r;
  for (int i = 0; i < 3; ++i) { r[i] = (int)s.range(1, maxRes); }
  return r;
}
//! Box with up to maxRes voxels a side; half of them start at zero
inline Box3i genBox(Src &s, int maxRes, int maxOrg = 14)
{
  V3i r = genRes(s, maxRes), o(0);
  if (s.flip()) { for (int i = 0; i < 3; ++i) { o[i] = (int)s.around0(-maxOrg, maxOrg); } }
  return Box3i(o, o + r - V3i(1));
}
struct Def { Box3i ext, dw; };
//! Percentage of definitions that lie up to 2^bits away from the origin; set by the harnesses that take them
struct FarOrigin { int percent, bits; };
inline FarOrigin &farOrigin() { static FarOrigin f = {0, 0}; return f; }
//! Extents and data window: equal, padded, subset or arbitrary
inline Def genDef(Src &s, int maxRes, int maxOrg = 14)
{
  Def d;
  d.ext = genBox(s, maxRes, maxOrg);
  d.dw = d.ext;
  switch (s.weighted({5, 2, 2, 2})) {
  case 1: { int p = (int)s.range(1, 3); d.dw.min -= V3i(p); d.dw.max += V3i(p); break; }
  case 2:
    for (int i = 0; i < 3; ++i) {
      d.dw.min[i] = (int)s.range(d.ext.min[i], d.ext.max[i]);
      d.dw.max[i] = (int)s.range(d.dw.min[i], d.ext.max[i]);
    }
    break;
  case 3: d.dw = genBox(s, maxRes, maxOrg); break;
  }
  if (farOrigin().percent && s.chance(farOrigin().percent)) {
    V3i o(0);
    for (int i = 0; i < 3; ++i) {
      if (s.chance(60)) { int64_t m = (int64_t)1 << s.range(8, farOrigin().bits); o[i] = (int)(s.flip() ? s.range(-m, m) : s.flip() ? m : -m); }
    }
    d.ext.min += o; d.ext.max += o; d.dw.min += o; d.dw.max += o;
  }
  return d;
}
template <class F> void forVox(const Box3i &b, F f)
{
  for (int k = b.min.z; k <= b.max.z; ++k)
    for (int j = b.min.y; j <= b.max.y; ++j)
      for (int i = b.min.x; i <= b.max.x; ++i) { f(i, j, k); }
}
inline V3i genVoxel(Src &s, const Box3i &b)
{ V3i v; for (int i = 0; i < 3; ++i) { v[i] = (int)s.range(b.min[i], b.max[i]); } return v; }
inline Box3i genSub(Src &s, const Box3i &b)
{
  Box3i r;
  for (int i = 0; i < 3; ++i) { r.min[i] = (int)s.range(b.min[i], b.max[i]); r.max[i] = (int)s.range(r.min[i], b.max[i]); }
  return r;
}

//----------------------------------------------------------------------------
// Voxel array used as the reference model
//----------------------------------------------------------------------------
template <class T> struct Grid
{
  Box3i b;
  std::vector<T> d;
  void reset(const Box3i &bb, const T &v) { b = bb; d.assign(vol(bb), v); }
  size_t idx(int i, int j, int k) const
  {
    V3i r = dims(b);
    return ((size_t)(k - b.min.z) * r.y + (j - b.min.y)) * r.x + (i - b.min.x);
  }
  T &at(int i, int j, int k) { return d[idx(i, j, k)]; }
  const T &at(int i, int j, int k) const { return d[idx(i, j, k)]; }
  const T &clamped(int i, int j, int k) const
  {
    return at(std::min(b.max.x, std::max(b.min.x, i)), std::min(b.max.y, std::max(b.min.y, j)),
              std::min(b.max.z, std::max(b.min.z, k)));
  }
};

//! Fill pattern: dense noise, sparse clusters, constant pieces
template <class T> void genGrid(Src &s, const Box3i &b, Grid<T> &g, int kind = -1)
{
  uint64_t seed = s.below(1u << 30);
  g.reset(b, mkConst<T>(0));
  if (kind < 0) { kind = (int)s.weighted({3, 3, 2, 1}); }
  switch (kind) {
  case 0: forVox(b, [&](int i, int j, int k) { g.at(i, j, k) = mkVal<T>(vhash(seed, i, j, k)); }); break;
  case 1: {   // a few boxes of noise in emptiness
    int n = (int)s.range(1, 4);
    for (int q = 0; q < n; ++q) {
      Box3i r = genSub(s, b);
      for (int d = 0; d < 3; ++d) { r.max[d] = std::min(r.max[d], r.min[d] + 5); }
      forVox(r, [&](int i, int j, int k) { g.at(i, j, k) = mkVal<T>(vhash(seed + q, i, j, k)); });
    }
    break;
  }
  case 2: {   // piecewise constant
    int n = (int)s.range(1, 3);
    T bg = mkVal<T>(seed);
    forVox(b, [&](int i, int j, int k) { g.at(i, j, k) = bg; });
    for (int q = 0; q < n; ++q) {
      Box3i r = genSub(s, b); T v = mkVal<T>(seed + 77 + q);
      forVox(r, [&](int i, int j, int k) { g.at(i, j, k) = v; });
    }
    break;
  }
  default: {  // single voxels
    int n = (int)s.range(0, 5);
    for (int q = 0; q < n; ++q) { V3i v = genVoxel(s, b); g.at(v.x, v.y, v.z) = mkVal<T>(seed + q); }
  }
  }
}
template <class F, class T> void toField(const Grid<T> &g, F &f)
{ forVox(g.b, [&](int i, int j, int k) { f.lvalue(i, j, k) = g.at(i, j, k); }); }
//! Leaves voxels equal to 'bg' untouched, so that sparse blocks stay unallocated
template <class F, class T> void toFieldSparse(const Grid<T> &g, F &f, const T &bg)
{ forVox(g.b, [&](int i, int j, int k) { if (!same(g.at(i, j, k), bg)) { f.lvalue(i, j, k) = g.at(i, j, k); } }); }

//! As checkGrid(), bit by bit
template <class T> void checkGridBits(const Field<T> &f, const Grid<T> &g, const char *sig, const std::string &what)
{
  if (!(f.dataWindow() == g.b)) { PBT_FAIL(sig, what << ": data window " << bs(f.dataWindow()) << ", expected " << bs(g.b)); }
  forVox(g.b, [&](int i, int j, int k) {
    T v = f.value(i, j, k);
    if (!bitSame(v, g.at(i, j, k))) {
      PBT_FAIL(sig, what << ": voxel (" << i << "," << j << "," << k << ") is " << vs(v) << ", expected " << vs(g.at(i, j, k)));
    }
  });
}
//! Compares every voxel through the virtual interface
template <class T> void checkGrid(const Field<T> &f, const Grid<T> &g, const char *sig, const std::string &what)
{
  if (!(f.dataWindow() == g.b)) { PBT_FAIL(sig, what << ": data window " << bs(f.dataWindow()) << ", expected " << bs(g.b)); }
  forVox(g.b, [&](int i, int j, int k) {
    T v = f.value(i, j, k);
    if (!same(v, g.at(i, j, k))) {
      PBT_FAIL(sig, what << ": voxel (" << i << "," << j << "," << k << ") is " << vs(v) << ", expected " << vs(g.at(i, j, k)));
    }
  });
}

//----------------------------------------------------------------------------
// Mappings
//----------------------------------------------------------------------------
inline M44d genMatrix(Src &s, Ctx *c = 0)
{
  M44d m;
  switch (s.weighted({2, 3, 3, 2})) {
  case 0: break;
  case 1: {
    double k = s.real(0.25, 8);
    V3d sc(k, s.flip() ? k : s.real(0.25, 8), s.flip() ? k : s.real(0.25, 8));
    M44d S, T; S.setScale(sc);
    T.setTranslation(V3d(s.real(-10, 10), s.real(-10, 10), s.real(-10, 10)));
    m = S * T;
    break;
  }
  case 2: {
    M44d S, R, T;
    S.setScale(V3d(s.real(0.25, 8), s.real(0.25, 8), s.real(0.25, 8)));
    R.setEulerAngles(V3d(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)));
    T.setTranslation(V3d(s.real(-10, 10), s.real(-10, 10), s.real(-10, 10)));
    m = S * R * T;
    break;
  }
  default: {   // sheared and possibly mirrored
    M44d S, H, R, T;
    S.setScale(V3d(s.real(0.25, 8) * (s.flip() ? -1 : 1), s.real(0.25, 8), s.real(0.25, 8)));
    H.setShear(V3d(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)));
    R.setEulerAngles(V3d(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)));
    T.setTranslation(V3d(s.real(-10, 10), s.real(-10, 10), s.real(-10, 10)));
    m = S * H * R * T;
  }
  }
  return m;
}

struct MatrixSpec { std::vector<std::pair<float, M44d> > samples; };
inline MatrixSpec genMatrixSpec(Src &s, int maxSamples = 3)
{
  MatrixSpec r;
  int n = (int)s.range(1, maxSamples);
  float t = n == 1 ? 0.0f : (float)s.around0(-2, 2) * 0.5f;
  for (int i = 0; i < n; ++i) { r.samples.push_back(std::make_pair(t, genMatrix(s))); t += 0.25f * (float)s.range(1, 4); }
  return r;
}
//! The same transform with world space times 2^k: changes no bits but those of the exponents
inline M44d worldTimesPow2(M44d m, int k) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { m[i][j] = std::ldexp(m[i][j], k); } return m; }
inline void worldTimesPow2(MatrixSpec &sp, int k) { for (auto &p : sp.samples) { p.second = worldTimesPow2(p.second, k); } }
//! The number, off by 2^-5 to 2^-30 of it
inline double nearby(Src &s, double v) { double d = std::ldexp(s.flip() ? 1.0 : -1.0, -(int)s.range(5, 30)); return v == 0 ? d : v * (1 + d); }
//! A mapping that differs in one number by little
inline void perturb(Src &s, MatrixSpec &sp)
{
  size_t i = s.below(sp.samples.size());
  if (i + 1 == sp.samples.size() && s.chance(25)) { sp.samples[i].first += std::ldexp(1.0f, -(int)s.range(5, 18)); return; }
  double &v = sp.samples[i].second[(int)s.below(4)][(int)s.below(3)]; v = nearby(s, v);
}
inline MatrixFieldMapping::Ptr mkMatrix(const MatrixSpec &sp)
{
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
  for (auto &p : sp.samples) { m->setLocalToWorld(p.first, p.second); }
  return m;
}

//! Screen-to-world transform of a perspective camera looking down -Z, screen-space
//! depth running from 0 at the near plane to 1 at the far plane
inline M44d perspective(double fov, double aspect, double zn, double zf, const M44d &cam)
{
  double it = 1.0 / tan(fov * 0.5);
  M44d persp(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, zf / (zf - zn), 1, 0, 0, -zf * zn / (zf - zn), 0);
  M44d scale, flip;
  scale.setScale(V3d(it / aspect, it, 1.0));
  flip.setScale(V3d(1, 1, -1));
  return (flip * persp * scale).inverse() * cam;
}
struct FrustumSpec
{
  bool uniform;
  std::vector<std::pair<float, std::pair<M44d, M44d> > > samples;   // screenToWorld, cameraToWorld
};
inline FrustumSpec genFrustumSpec(Src &s, int maxSamples = 2)
{
  FrustumSpec r; r.uniform = s.flip();
  int n = (int)s.range(1, maxSamples);
  float t = n == 1 ? 0.0f : (float)s.around0(-2, 2) * 0.5f;
  double fov = s.real(0.4, 1.6), aspect = s.real(0.5, 2), zn = s.real(0.5, 2), zf = zn + s.real(1, 40);
  for (int i = 0; i < n; ++i) {
    M44d R, T, cam;
    R.setEulerAngles(V3d(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)));
    T.setTranslation(V3d(s.real(-10, 10), s.real(-10, 10), s.real(-10, 10)));
    cam = R * T;
    r.samples.push_back(std::make_pair(t, std::make_pair(perspective(fov, aspect, zn, zf, cam), cam)));
    t += 0.25f * (float)s.range(1, 4);
  }
  return r;
}
inline FrustumFieldMapping::Ptr mkFrustum(const FrustumSpec &sp)
{
  FrustumFieldMapping::Ptr m(new FrustumFieldMapping);
  m->setZDistribution(sp.uniform ? FrustumFieldMapping::UniformDistribution : FrustumFieldMapping::PerspectiveDistribution);
  for (auto &p : sp.samples) { m->setTransforms(p.first, p.second.first, p.second.second); }
  return m;
}
struct MapSpec { int kind; MatrixSpec m; FrustumSpec f; };   // 0 null, 1 matrix, 2 frustum
inline void worldTimesPow2(FrustumSpec &sp, int k) { for (auto &p : sp.samples) { p.second.first = worldTimesPow2(p.second.first, k); p.second.second = worldTimesPow2(p.second.second, k); } }
inline MapSpec genMapSpec(Src &s, bool frustum = true)
{
  MapSpec r;
  r.kind = (int)s.weighted({3, 5, frustum ? 2 : 0});
  if (r.kind == 1) { r.m = genMatrixSpec(s); }
  if (r.kind == 2) { r.f = genFrustumSpec(s); }
  return r;
}
inline FieldMapping::Ptr mkMap(const MapSpec &sp)
{
  if (sp.kind == 0) { return FieldMapping::Ptr(new NullFieldMapping); }
  if (sp.kind == 1) { return mkMatrix(sp.m); }
  return mkFrustum(sp.f);
}
inline const char *mapName(const MapSpec &sp) { return sp.kind == 0 ? "null" : sp.kind == 1 ? "matrix" : "frustum"; }

//! Dispatch over voxel types
template <class Fn> void withScalar(int i, Fn f)
{ switch (i % 3) { case 0: f(float()); break; case 1: f(half()); break; default: f(double()); } }
template <class Fn> void withVector(int i, Fn f)
{ switch (i % 3) { case 0: f(V3f()); break; case 1: f(V3h()); break; default: f(V3d()); } }
template <class Fn> void withAny(int i, Fn f) { if (i % 6 < 3) { withScalar(i, f); } else { withVector(i, f); } }
inline const char *typeName(int i) { static const char *n[] = {"float", "half", "double", "V3f", "V3h", "V3d"}; return n[i % 6]; }

inline std::string slurpFile(const std::string &f)
{
  std::string s; FILE *fp = fopen(f.c_str(), "rb"); if (!fp) { return s; }
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof(b), fp)) > 0) { s.append(b, n); }
  fclose(fp); return s;
}
inline void spitFile(const std::string &f, const std::string &d)
{ FILE *fp = fopen(f.c_str(), "wb"); if (fp) { fwrite(d.data(), 1, d.size(), fp); fclose(fp); } }

} // namespace fx
