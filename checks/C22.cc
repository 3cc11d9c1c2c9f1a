#include "la.h"
#include <tensor/linalg.h>
using namespace tensor;
const char *pbt::PROPERTY = "C22";
const char *pbt::RULE =
    "Square matrices of 1-12 rows (rarely 90) with norm from zero (and from 1e-300 on) to sixty (to 10^5 where the exponential stays bounded): general, diagonal, nilpotent, triangular, (anti-)Hermitian, integer, sparse and badly scaled; "
    "approximation orders 7-14. The result is compared with a power series with scaling and squaring in 64-bit-mantissa arithmetic, within the error that squaring in "
    "double precision can accumulate. Non-trivial: two or more rows and a non-zero matrix.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the matrix has at least one row, finite elements and a norm for which the exponential does not overflow"};
typedef std::complex<long double> Lc;
inline double conjz(double x) { return x; }
inline cd conjz(cd x) { return std::conj(x); }
template <class T> struct Ext { typedef long double type; };
template <> struct Ext<cd> { typedef Lc type; };
template <class X> std::vector<X> lmul(const std::vector<X> &a, const std::vector<X> &b, long n) {
  std::vector<X> r(n * n, X(0));
  for (long j = 0; j < n; ++j) for (long k = 0; k < n; ++k) { X y = b[k + n * j]; if (y == X(0)) continue; for (long i = 0; i < n; ++i) r[i + n * j] += a[i + n * k] * y; }
  return r;
}
template <class X> double infnorm(const std::vector<X> &a, long n) { double m = 0; for (long i = 0; i < n; ++i) { double s = 0; for (long j = 0; j < n; ++j) s += (double)std::abs(a[i + n * j]); m = std::max(m, s); } return m; }
// exponential and the error a double precision evaluation may have
template <class T> Arr<T> reference(const Arr<T> &a, double *bound) {
  typedef typename Ext<T>::type X;
  long n = a.d[0];
  std::vector<X> x(a.v.begin(), a.v.end()), sum(n * n, X(0)), term;
  double nrm = infnorm(x, n);
  int j = 0;
  while (nrm * std::pow(2.0, -j) > 0.5) ++j;
  X f = X((long double)std::pow(2.0, -j));
  for (auto &e : x) e *= f;
  for (long i = 0; i < n; ++i) sum[i + n * i] = X(1);
  term = sum;
  for (int k = 1; k < 24; ++k) {
    term = lmul(term, x, n);
    for (auto &e : term) e /= X((long double)k);
    for (long i = 0; i < n * n; ++i) sum[i] += term[i];
  }
  double err = 20 * n * EPS * infnorm(sum, n);
  for (int k = 0; k < j; ++k) {
    double s = infnorm(sum, n);
    err = 2 * s * err + 4 * n * EPS * s * s + 16 * n * 2.3e-308;   // the last term for underflow
    sum = lmul(sum, sum, n);
  }
  *bound = err + 20 * n * EPS * infnorm(sum, n);
  Arr<T> r(a.d);
  for (long i = 0; i < n * n; ++i) r.v[i] = T(sum[i]);
  return r;
}
template <class T> T unit_phase(Lcg &g);
template <> double unit_phase<double>(Lcg &g) { return (g.next() & 1) ? 1 : -1; }
template <> cd unit_phase<cd>(Lcg &g) { double t = 6.283185307179586 * g.u(); return cd(std::cos(t), std::sin(t)); }
template <class T> Arr<T> gen_gen(Src &S, Lcg &g, long n) {
  Arr<T> a(Dims{n, n});
  int kind = (int)S.weighted({3, 1, 2, 1, 2, 1, 1, 2});
  label(std::vector<std::string>{"general", "diagonal", "triangular", "zero", "(anti-)Hermitian", "integers", "sparse", "contraction"}[kind]);
  switch (kind) {
    case 0: a = rnd_arr<T>(g, a.d); break;
    case 1: for (long i = 0; i < n; ++i) a(i, i) = rnd<T>(g); break;
    case 2: { bool strict = S.coin(); for (long j = 0; j < n; ++j) for (long i = 0; i < j + (strict ? 0 : 1); ++i) a(i, j) = rnd<T>(g); break; }
    case 3: return a;
    case 7: {   // large norm, bounded exponential: anti-Hermitian, or minus a Hermitian square
      Arr<T> b = rnd_arr<T>(g, a.d), h = adj(b);
      if (S.coin()) for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = (b.v[i] - h.v[i]) * 0.5;
      else { a = mm(b, h); for (auto &x : a.v) x = -x; for (long i = 0; i < n; ++i) for (long j = 0; j < i; ++j) a(i, j) = conjz(a(j, i)); }
      break;
    }
    case 4: { double s = S.coin() ? 1 : -1; a = rnd_arr<T>(g, a.d); Arr<T> h = adj(a); for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = (a.v[i] + T(s) * h.v[i]) * 0.5; break; }
    case 5: for (auto &x : a.v) x = T((double)(long)(g.next() % 7) - 3.0); return a;
    default: for (auto &x : a.v) if (g.next() % 4 == 0) x = rnd<T>(g); break;
  }
  double m = 0;
  for (long i = 0; i < n; ++i) { double s = 0; for (long j = 0; j < n; ++j) s += std::abs(a(i, j)); m = std::max(m, s); }
  double want = kind == 7 ? S.elem({100.0, 300.0, 1000.0, 3000.0, 1e5}) : S.elem({0.3, 1.0, 0.499, 0.5, 2.0, 8.0, 30.0, 60.0, 1e-3, 1e-9});
  if (kind != 7 && S.coin(1, 4)) { want = std::pow(10.0, -(double)S.range(1, 120) / 10.0) ; label("small norm"); }
  else if (kind != 7 && S.coin(1, 4)) want = std::pow(2.0, (double)S.range(-20, 58) / 10.0);
  if (m > 0) for (auto &x : a.v) x *= T(want / m);
  return a;
}
template <class T> void check_expm(const std::string &what, const Arr<T> &a, unsigned order, bool def) {
  Tensor<T> ta = mk(a), shared = ta;
  double bound;
  Arr<T> want = reference(a, &bound);
  Arr<T> got = ld(def ? linalg::expm(ta) : linalg::expm(ta, order));
  expect_eq("the matrix afterwards", ta, a);
  if (got.d != want.d) FAIL(what << ": dimensions " << show(got.d));
  double e = 0;
  for (size_t i = 0; i < got.v.size(); ++i) { double x = std::abs(got.v[i] - want.v[i]); if (!(x <= e)) e = x; }
  if (!(e <= bound)) FAIL(what << ": error " << e << " (allowed " << bound << ") " << show(got) << " instead of " << show(want));
}
template <class T> void expm_t(Src &S) {
  Lcg g(S);
  long n = S.coin(1, 2000) ? S.range(31, 90) : S.coin(1, 60) ? S.range(13, 30) : S.coin(1, 4) ? S.range(5, 12) : S.range(1, 5);
  Arr<T> a = gen_gen<T>(S, g, n);
  unsigned order = (unsigned)S.range(7, 14);
  NOTE("expm " << tname<T>() << " order " << order << " A " << show(a));
  if (n > 1 && maxabs(a) > 0) nontrivial();
  bool bound_ok = maxabs(a) < 64;
  check_expm("expm", a, order, order == 7 && S.coin());
  if (bound_ok && S.coin(1, 4)) {   // the relations of the statement, within the bounds of both sides
    double b1, b2;
    Arr<T> e = reference(a, &b1), na = a;
    for (auto &x : na.v) x = -x;
    Arr<T> en = reference(na, &b2);
    Arr<T> prod = mm(ld(linalg::expm(mk(a))), ld(linalg::expm(mk(na))));
    double bound = 4 * n * (b1 * maxabs(en) * n + b2 * maxabs(e) * n + b1 * b2 * n);
    double err = maxabs(sub(prod, ident<T>(n)));
    if (!(err <= bound)) FAIL("exp(A)*exp(-A) differs from the identity by " << err << " (allowed " << bound << ")");
    Arr<T> et = ld(linalg::expm(mk(tr(a))));
    double er = maxabs(sub(et, tr(e)));
    double b3;
    reference(tr(a), &b3);
    if (!(er <= b1 + b3)) FAIL("exp of the transpose differs from the transpose of exp by " << er << " (allowed " << b1 + b3 << ")");
  }
  if (S.coin(1, 300)) {
    Tensor<T> w = mk(Arr<T>(Dims{n, n + 1}));
    must_refuse("expm of a rectangular matrix", [&] { linalg::expm(w); });
  }
}
TEST(expm_R, 200000, 1200000) { expm_t<double>(S); }
TEST(expm_C, 100000, 600000) { expm_t<cd>(S); }
