// Generators, naive reference models and comparison helpers shared by checks.
#ifndef PBT_GEN_H
#define PBT_GEN_H
#include "engine.h"
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <tensor/tensor.h>
#include <tensor/sparse.h>

namespace pbt {
typedef std::complex<double> cd;
typedef std::vector<long> Dims;

inline long prod(const Dims &d) { long p = 1; for (long x : d) p *= x; return d.empty() ? 0 : p; }

// Dense column-major array: the reference model of a tensor.
template <class T> struct Arr {
  Dims d;
  std::vector<T> v;
  Arr() {}
  explicit Arr(const Dims &dd) : d(dd), v(prod(dd), T(0)) {}
  Arr(const Dims &dd, const T &x) : d(dd), v(prod(dd), x) {}
  long rank() const { return (long)d.size(); }
  long size() const { return (long)v.size(); }
  T &operator()(long i, long j) { return v[i + d[0] * j]; }
  const T &operator()(long i, long j) const { return v[i + d[0] * j]; }
};

inline tensor::Indices ix(const Dims &d) {
  tensor::Indices r((tensor::index)d.size());
  for (size_t i = 0; i < d.size(); ++i) r.at(i) = d[i];
  return r;
}
inline Dims dims_of(const tensor::Indices &i) {
  Dims d;
  for (long k = 0; k < i.size(); ++k) d.push_back(i[k]);
  return d;
}
template <class T> tensor::Tensor<T> mk(const Arr<T> &a) {
  tensor::Tensor<T> t(ix(a.d));
  if (a.size()) std::copy(a.v.begin(), a.v.end(), t.begin());
  return t;
}
template <class T> Arr<T> ld(const tensor::Tensor<T> &t) {
  Arr<T> a;
  a.d = dims_of(t.dimensions());
  a.v.resize(t.size());
  for (long i = 0; i < t.size(); ++i) a.v[i] = t[i];
  return a;
}
inline std::vector<long> ld(const tensor::Indices &t) { return dims_of(t); }
inline std::vector<char> ldb(const tensor::Booleans &t) {
  std::vector<char> r;
  for (long i = 0; i < t.size(); ++i) r.push_back(t[i] ? 1 : 0);
  return r;
}

template <class V> std::string show(const V &v, size_t lim = 40) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size() && i < lim; ++i) o << (i ? "," : "") << v[i];
  if (v.size() > lim) o << ",...(" << v.size() << ")";
  o << "]";
  return o.str();
}
inline std::string show(const std::vector<char> &v) {
  std::string s = "[";
  for (char c : v) s += c ? '1' : '0';
  return s + "]";
}
template <class T> std::string show(const Arr<T> &a) { return "dims=" + show(a.d) + " data=" + show(a.v); }
template <class T> std::string show(const tensor::Tensor<T> &t) { return show(ld(t)); }
inline std::string show(const tensor::Indices &t) { return show(ld(t)); }

// ---- bitwise / numeric equality ------------------------------------------------
inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline bool same_bits(cd a, cd b) { return same_bits(a.real(), b.real()) && same_bits(a.imag(), b.imag()); }
inline bool same_bits(long a, long b) { return a == b; }
// equal including the sign of zero; all NaNs are alike
inline bool same_val(double a, double b) { return same_bits(a, b) || (std::isnan(a) && std::isnan(b)); }
inline bool same_val(cd a, cd b) { return same_val(a.real(), b.real()) && same_val(a.imag(), b.imag()); }
// numerically equal (0 == -0); all NaNs are alike
inline bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same_num(cd a, cd b) { return same_num(a.real(), b.real()) && same_num(a.imag(), b.imag()); }

enum Eq { BITS, VAL, NUM };
template <class T> bool eq1(const T &a, const T &b, Eq m) { return m == BITS ? same_bits(a, b) : m == VAL ? same_val(a, b) : same_num(a, b); }
template <class T> void expect_eq(const std::string &what, const Arr<T> &got, const Arr<T> &want, Eq m = BITS) {
  if (got.d != want.d) FAIL(what << ": dimensions " << show(got.d) << " instead of " << show(want.d));
  if (got.v.size() != want.v.size()) FAIL(what << ": " << got.v.size() << " elements instead of " << want.v.size());
  for (size_t i = 0; i < got.v.size(); ++i)
    if (!eq1(got.v[i], want.v[i], m))
      FAIL(what << ": element " << i << " is " << got.v[i] << " instead of " << want.v[i] << " in " << show(got) << " vs expected " << show(want));
}
template <class T> void expect_eq(const std::string &what, const tensor::Tensor<T> &got, const Arr<T> &want, Eq m = BITS) { expect_eq(what, ld(got), want, m); }
inline void expect_eq(const std::string &what, const std::vector<long> &got, const std::vector<long> &want) {
  if (got != want) FAIL(what << ": " << show(got) << " instead of " << show(want));
}
inline void expect_eq(const std::string &what, const std::vector<char> &got, const std::vector<char> &want) {
  if (got != want) FAIL(what << ": " << show(got) << " instead of " << show(want));
}
// |got - want| <= bound elementwise
template <class T> void expect_close(const std::string &what, const Arr<T> &got, const Arr<T> &want, const std::vector<double> &bound) {
  if (got.d != want.d) FAIL(what << ": dimensions " << show(got.d) << " instead of " << show(want.d));
  if (got.v.size() != want.v.size()) FAIL(what << ": " << got.v.size() << " elements instead of " << want.v.size());
  for (size_t i = 0; i < got.v.size(); ++i)
    if (!(std::abs(got.v[i] - want.v[i]) <= bound[i]))
      FAIL(what << ": element " << i << " is " << got.v[i] << " instead of " << want.v[i] << " (allowed error " << bound[i] << ") in " << show(got) << " vs expected " << show(want));
}

// ---- scalars --------------------------------------------------------------------
enum VKind { V_INT, V_REAL, V_SPECIAL, V_TINYSET };
inline double gen_real(Src &S) {
  switch (S.weighted({4, 4, 1})) {
    case 0: return (double)S.sint(9);
    case 1: return (S.unit() * 2 - 1);
    default: return (S.unit() * 2 - 1) * std::pow(10.0, (double)S.sint(6));
  }
}
static const double SPECIALS[] = {
    0.0, 1.0, -1.0, -0.0, 0.5, -2.5, 3.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
    -std::numeric_limits<double>::infinity(), 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
    1e-300, 1e300, 1.0 + 2.220446049250313e-16, 0.1, 1e16, 9007199254740993.0, 4503599627370496.5, -0.49999999999999994, 0.49999999999999994, 1e154, -1e155};
inline double gen_num(Src &S, VKind k) {
  switch (k) {
    case V_INT: return (double)S.sint(9);
    case V_TINYSET: return (double)S.sint(1);
    case V_REAL: return gen_real(S);
    default: return S.coin(1, 3) ? gen_real(S) : S.elem(SPECIALS);
  }
}
template <class T> T gen_val(Src &S, VKind k);
template <> inline double gen_val<double>(Src &S, VKind k) { return gen_num(S, k); }
template <> inline cd gen_val<cd>(Src &S, VKind k) { double a = gen_num(S, k), b = gen_num(S, k); return cd(a, b); }

inline VKind gen_vkind(Src &S, bool special) {
  if (!special) return S.weighted({3, 2, 1}) == 1 ? V_REAL : S.coin(1, 3) ? V_TINYSET : V_INT;
  switch (S.weighted({3, 2, 3, 1})) { case 0: return V_INT; case 1: return V_REAL; case 2: return V_SPECIAL; default: return V_TINYSET; }
}

// ---- shapes -----------------------------------------------------------------------
// rank in [rmin,rmax]; sizes 1..max (0 with small probability when zeros); product <= cap
inline long gen_size(Src &S, long max, bool zeros) {
  if (zeros && S.coin(1, 14)) return 0;
  return S.range(1, max);
}
inline Dims gen_dims(Src &S, long rmin, long rmax, long max, bool zeros, long cap = 400) {
  long r = S.range(rmin, rmax);
  Dims d;
  long p = 1;
  for (long i = 0; i < r; ++i) {
    long m = max;
    while (m > 1 && p * m > cap) --m;
    long n = gen_size(S, m, zeros);
    d.push_back(n);
    if (n) p *= n;
  }
  return d;
}
template <class T> Arr<T> gen_arr(Src &S, const Dims &d, VKind k) {
  Arr<T> a(d);
  if (a.size() <= 200) { for (auto &x : a.v) x = gen_val<T>(S, k); return a; }
  // large arrays: a pool of values in a scrambled order, a few positions of their own
  T pool[17];
  for (auto &x : pool) x = gen_val<T>(S, k);
  for (long i = 0; i < a.size(); ++i) a.v[i] = pool[(i * 7 + i / 17 + (i / 289) * 3) % 17];
  for (int n = (int)S.draw(4); n > 0; --n) a.v[S.draw(a.size())] = gen_val<T>(S, k);
  return a;
}
// more elements than 16-bit counters hold: one long dimension, or a product of two
inline Dims gen_huge(Src &S, long rmin, long rmax) {
  Dims d(S.range(rmin, std::max(rmin, std::min(rmax, 3L))), 1);
  long n = S.coin() ? S.range(32700, 33100) : S.range(65000, 67000), f = S.elem({1L, 2L, 3L, 255L, 257L});
  if (d.size() < 2) f = 1;
  d[S.draw(d.size())] = f;
  size_t k = S.draw(d.size());
  d[k] = d[k] == f && f > 1 ? f * (n / f) : (n + f - 1) / f;
  return d;
}
// many dimensions, most of size one or two
inline Dims gen_deep(Src &S, long rmin = 7, long rmax = 12, bool zeros = true) {
  Dims d;
  long p = 1;
  for (long r = S.range(rmin, rmax); r > 0; --r) {
    long n = S.weighted({5, 4, 1}) + 1;
    if (p * n > 260) n = 1;
    if (zeros && S.coin(1, 120)) n = 0;
    d.push_back(n);
    if (n) p *= n;
  }
  return d;
}
// shapes for elementwise operations: mostly small, now and then thousands of elements
inline Dims gen_shape(Src &S, bool zeros = true) {
  if (S.coin(1, 4000)) return gen_huge(S, 1, 3);
  if (S.coin(1, 60)) return gen_dims(S, 1, 3, S.coin() ? 3000 : 60, false, 4000);
  if (S.coin(1, 80)) return gen_deep(S, 7, 12, zeros);
  return gen_dims(S, 1, 6, 5, zeros, 60);
}
// elements all different: position errors cannot hide
template <class T> T tag(long i) { return T((double)(i + 1)); }
template <> inline cd tag<cd>(long i) { return cd((double)(i + 1), -0.5 * (double)(i + 1) - 1.0); }
template <class T> Arr<T> tag_arr(const Dims &d, long base = 0) {
  Arr<T> a(d);
  for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = tag<T>((long)i + base);
  return a;
}
inline cd cj(cd z) { return std::conj(z); }
inline double cj(double z) { return z; }

// multi-index iteration over dims d (first index fastest); false when exhausted
inline bool next_index(Dims &i, const Dims &d) {
  for (size_t k = 0; k < d.size(); ++k) {
    if (++i[k] < d[k]) return true;
    i[k] = 0;
  }
  return false;
}
inline long offset(const Dims &i, const Dims &d) {
  long o = 0, f = 1;
  for (size_t k = 0; k < d.size(); ++k) { o += i[k] * f; f *= d[k]; }
  return o;
}

// ---- naive matrices ------------------------------------------------------------------
template <class T> Arr<T> mat(long r, long c) { return Arr<T>(Dims{r, c}); }
template <class T> Arr<T> mm(const Arr<T> &a, const Arr<T> &b) {
  Arr<T> r(Dims{a.d[0], b.d[1]});
  for (long j = 0; j < b.d[1]; ++j)
    for (long k = 0; k < a.d[1]; ++k)
      for (long i = 0; i < a.d[0]; ++i) r(i, j) += a(i, k) * b(k, j);
  return r;
}
template <class T> Arr<T> tr(const Arr<T> &a) {
  Arr<T> r(Dims{a.d[1], a.d[0]});
  for (long j = 0; j < a.d[1]; ++j) for (long i = 0; i < a.d[0]; ++i) r(j, i) = a(i, j);
  return r;
}
template <class T> Arr<T> adj(const Arr<T> &a) {
  Arr<T> r = tr(a);
  for (auto &x : r.v) x = cj(x);
  return r;
}
template <class T> Arr<T> ident(long n) { Arr<T> r(Dims{n, n}); for (long i = 0; i < n; ++i) r(i, i) = T(1); return r; }
template <class T> Arr<T> sub(const Arr<T> &a, const Arr<T> &b) { Arr<T> r = a; for (size_t i = 0; i < r.v.size(); ++i) r.v[i] -= b.v[i]; return r; }
template <class T> double frob(const Arr<T> &a) { double s = 0; for (auto &x : a.v) s += std::norm(x); return std::sqrt(s); }
template <class T> double maxabs(const Arr<T> &a) { double s = 0; for (auto &x : a.v) { double m = std::abs(x); if (!(m <= s)) s = m; } return s; }
template <class T> bool finite(const Arr<T> &a) { for (auto &x : a.v) if (!std::isfinite(std::abs(x))) return false; return true; }
inline Arr<cd> cplx(const Arr<double> &a) { Arr<cd> r(a.d); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = a.v[i]; return r; }
inline Arr<cd> cplx(const Arr<cd> &a) { return a; }

template <class T> const char *tname();
template <> inline const char *tname<double>() { return "R"; }
template <> inline const char *tname<cd>() { return "C"; }
}  // namespace pbt
using namespace pbt;
#endif
