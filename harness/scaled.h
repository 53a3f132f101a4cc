// Filtering and interpolating are linear in the size of the values, even those that treat equal values
// specially: values times a power of two give the result times that power, without any rounding.
#pragma once
#include "common.h"
namespace fx {
template <class T> T timesPow2(const T &v, int k) { T r = v; for (int n = 0; n < Comp<T>::n; ++n) { Comp<T>::set(r, n, std::ldexp(Comp<T>::get(v, n), k)); } return r; }
template <class T> Grid<T> timesPow2(const Grid<T> &g, int k) { Grid<T> r = g; for (auto &v : r.d) { v = timesPow2(v, k); } return r; }
template <class T> double largest(const Grid<T> &g) { double m = 0; for (auto &v : g.d) for (int n = 0; n < Comp<T>::n; ++n) { m = std::max(m, fabs(Comp<T>::get(v, n))); } return m; }
//! Exponent from tiny to huge voxel values. Bounded so that no step leaves the range of normal floats
inline int genPow2(Src &s) { return (int)s.range(10, 30) * (s.flip() ? -1 : 1); }
//! Whether b is a times 2^k, for values of up to 'mag' before scaling
template <class T> bool isScaled(const T &a, const T &b, int k, double mag)
{
  for (int n = 0; n < Comp<T>::n; ++n) { if (!(fabs(Comp<T>::get(a, n) - std::ldexp(Comp<T>::get(b, n), -k)) <= 1e-6 * mag)) { return false; } }
  return true;
}
//! Float, double and their vectors: halves can't hold the scaled values
template <class F> void withWide(int t, F f) { switch (t & 3) { case 0: f(float()); break; case 1: f(double()); break; case 2: f(V3f()); break; default: f(V3d()); } }
inline const char *wideName(int t) { static const char *n[] = {"float ", "double ", "V3f ", "V3d "}; return n[t & 3]; }
inline V3d onGrid64(V3d p) { for (int a = 0; a < 3; ++a) { p[a] = floor(p[a] * 64) / 64; } return p; }
}
