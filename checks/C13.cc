#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C13";
const char *pbt::RULE =
    "Random non-empty tensors of rank 1-6 (up to thousands of elements), all signs, integers, reals over twelve orders of magnitude, all-negative data, one dominating "
    "element in a chosen position (first and last included), infinite and denormal elements; results compared with a long double evaluation of the definition within the rounding error of a "
    "straightforward sum. Non-trivial: two or more different elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"NaN is excluded, and infinities except for the largest and smallest elements and the largest modulus; for sums, Euclidean norms and scalar products magnitudes keep squares within range", "sums of empty tensors are zero"};

typedef long double ld_t;
template <class T> T gen_v(Src &S, int k);
inline double gv(Src &S, int k) {
  switch (k) {
    case 0: return (double)S.sint(9);
    case 1: return S.unit() * 2 - 1;
    case 2: return -1.0 - (double)S.draw(9);                       // all negative
    case 3: return (S.unit() * 2 - 1) * std::pow(10.0, (double)S.sint(6));
    case 4: return (S.unit() * 2 - 1) * 1e140;
    case 5: return (S.unit() * 2 - 1) * 1e-140;
    default: return (double)S.sint(1);
  }
}
template <> double gen_v<double>(Src &S, int k) { return gv(S, k); }
template <> cd gen_v<cd>(Src &S, int k) { double a = gv(S, k), b = S.coin(1, 5) ? 0.0 : gv(S, k); return S.coin(1, 8) ? cd(0, a) : cd(a, b); }
template <class T> Arr<T> gen_data(Src &S, const Dims &d, int k) {
  Arr<T> a(d);
  T pool[23];
  if (a.size() > 120) for (auto &x : pool) x = gen_v<T>(S, k);
  for (long i = 0; i < a.size(); ++i) a.v[i] = a.size() > 120 ? pool[(i * 5 + i / 23) % 23] : gen_v<T>(S, k);
  if (a.size() && S.coin(1, 2)) {    // a dominating element, often at an end
    long p = S.coin(1, 3) ? 0 : S.coin() ? a.size() - 1 : (long)S.draw(a.size());
    a.v[p] = gen_v<T>(S, k) * T(S.coin() ? 100.0 : -100.0);
  }
  return a;
}
inline Dims shape(Src &S) { return S.coin(1, 100) ? gen_deep(S, 7, 11, false) : S.coin(1, 3000) ? gen_huge(S, 1, 3) : S.coin(1, 25) ? gen_dims(S, 1, 3, S.coin() ? 3000 : 60, false, 5000) : gen_dims(S, 1, 6, 6, false, 80); }
inline ld_t re(double x) { return x; } inline ld_t im(double) { return 0; }
inline ld_t re(cd x) { return x.real(); } inline ld_t im(cd x) { return x.imag(); }
template <class T> bool near(T got, ld_t wr, ld_t wi, ld_t bound) { return !(fabsl(re(got) - wr) > bound) && !(fabsl(im(got) - wi) > bound) && got == got; }
template <class T> void different(const Arr<T> &a) { for (auto &x : a.v) if (x != a.v[0]) { nontrivial(); return; } }

inline void extremes(const Arr<double> &a, const RTensor &t) {
  double mx = a.v[0], mn = a.v[0];
  for (double x : a.v) { if (x > mx) mx = x; if (x < mn) mn = x; }
  CHECK(max(t) == mx, "max is " << max(t) << " instead of " << mx);
  CHECK(min(t) == mn, "min is " << min(t) << " instead of " << mn);
}
inline void extremes(const Arr<cd> &, const CTensor &) {}

template <class T> void reductions(Src &S) {
  int k = (int)S.draw(7);
  Dims d = shape(S);
  Arr<T> a = gen_data<T>(S, d, k);
  Tensor<T> t = mk(a), copy = t;
  NOTE("reductions " << tname<T>() << " " << show(a));
  label("values of kind " + std::to_string(k) + " rank " + std::to_string(d.size()));
  label(a.size() > 120 ? "large" : "small");
  different(a);
  long n = a.size();
  ld_t sr = 0, si = 0, ab = 0, sq = 0, mx = 0;
  for (auto &x : a.v) { sr += re(x); si += im(x); ab += std::abs(x); ld_t q = re(x) * re(x) + im(x) * im(x); sq += q; if (sqrtl(q) > mx) mx = sqrtl(q); }
  ld_t u = 2.3e-16L, e = u * (n + 4);
  bool exact = k == 0 || k == 2 || k == 6;
  T s = sum(t), m = mean(t);
  CHECK(near(s, sr, si, exact ? 0.0L : e * ab), "sum is " << s << " instead of (" << (double)sr << "," << (double)si << ")");
  CHECK(near(m, sr / n, si / n, (exact ? 2 * u : e) * ab / n), "mean is " << m << " instead of (" << (double)(sr / n) << "," << (double)(si / n) << ")");
  double n0 = norm0(t), n2 = norm2(t);
  CHECK(fabsl(n0 - mx) <= 4 * u * mx, "norm0 is " << n0 << " instead of " << (double)mx);
  CHECK(fabsl(n2 - sqrtl(sq)) <= e * sqrtl(sq), "norm2 is " << n2 << " instead of " << (double)sqrtl(sq));
  extremes(a, t);
  expect_eq("the argument afterwards", t, a);
  expect_eq("a copy of the argument", copy, a);
}
template <class T> T put(double v, bool im);
template <> double put<double>(double v, bool) { return v; }
template <> cd put<cd>(double v, bool im) { return im ? cd(0, v) : cd(v, 0); }
// infinite, huge and tiny elements: comparisons are exact
template <class T> void limit_values(Src &S) {
  static const double V[] = {HUGE_VAL, -HUGE_VAL, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, -5e-324, 0.0, 1.0, -1.0, 1e-310};
  Dims d = S.coin() ? Dims{S.range(1, 4)} : gen_dims(S, 1, 4, 4, false, 40);
  Arr<T> a(d);
  unsigned few = (unsigned)S.range(1, 10);
  unsigned from = (unsigned)S.draw(10);
  double big = 0;
  for (auto &x : a.v) { double v = V[(from + S.draw(few)) % 10]; x = put<T>(v, S.coin(1, 4)); big = std::max(big, std::abs(v)); }
  Tensor<T> t = mk(a);
  NOTE("limit values " << tname<T>() << " " << show(a));
  different(a);
  label(std::isinf(big) ? "infinite elements" : "finite elements");
  extremes(a, t);
  double n0 = norm0(t);
  CHECK(n0 == big, "norm0 is " << n0 << " instead of " << big);
}
TEST(limit_values_R, 100000, 600000) { limit_values<double>(S); }
TEST(limit_values_C, 100000, 600000) { limit_values<cd>(S); }
TEST(reductions_R, 600000, 3600000) { reductions<double>(S); }
TEST(reductions_C, 600000, 3600000) { reductions<cd>(S); }

template <class T> void products(Src &S) {
  int k = (int)S.draw(7);
  Dims d = shape(S);
  Arr<T> a = gen_data<T>(S, d, k), b = gen_data<T>(S, d, S.coin() ? k : (int)S.draw(4));
  bool same = S.coin(1, 6);
  if (same) b = a;
  Tensor<T> ta = mk(a), tb = same && S.coin() ? ta : mk(b);
  NOTE("scprod " << tname<T>() << " " << show(a) << " with " << show(b));
  label(same ? "scprod of a tensor with itself" : "scprod");
  different(a);
  ld_t sr = 0, si = 0, ab = 0;
  for (long i = 0; i < a.size(); ++i) {
    ld_t x = re(a.v[i]), y = im(a.v[i]), p = re(b.v[i]), q = -im(b.v[i]);
    sr += x * p - y * q;
    si += x * q + y * p;
    ab += (fabsl(x) + fabsl(y)) * (fabsl(p) + fabsl(q));
  }
  T s = scprod(ta, tb);
  CHECK(near(s, sr, si, 2.3e-16L * (a.size() + 8) * ab), "scprod is " << s << " instead of (" << (double)sr << "," << (double)si << ")");
  expect_eq("first argument afterwards", ta, a);
  expect_eq("second argument afterwards", tb, b);
  if (S.coin(1, 200)) {
    Dims w = shape(S);
    if (prod(w) != a.size()) { Tensor<T> o = mk(tag_arr<T>(w)); must_refuse("scprod of " + show(d) + " with " + show(w), [&] { scprod(ta, o); }); }
  }
}
TEST(scprod_R, 480000, 2880000) { products<double>(S); }
TEST(scprod_C, 480000, 2880000) { products<cd>(S); }

template <class T> void norminf(Src &S) {
  int k = (int)S.draw(7);
  Dims d = S.coin(1, 25) ? Dims{S.range(1, 80), S.range(1, 60)} : Dims{S.range(0, 7), S.range(0, 7)};
  Arr<T> a = gen_data<T>(S, d, k);
  Tensor<T> t = mk(a);
  NOTE("matrix_norminf " << tname<T>() << " " << show(a));
  label(d[0] == d[1] ? "square" : d[0] < d[1] ? "wide" : "tall");
  if (a.size()) different(a);
  ld_t best = 0;
  for (long i = 0; i < d[0]; ++i) {
    ld_t s = 0;
    for (long j = 0; j < d[1]; ++j) s += std::abs(a(i, j));
    if (s > best) best = s;
  }
  double got = matrix_norminf(t);
  CHECK(fabsl(got - best) <= 2.3e-16L * (d[1] + 4) * best, "matrix_norminf is " << got << " instead of " << (double)best);
  expect_eq("the argument afterwards", t, a);
}
TEST(norminf_R, 400000, 2400000) { norminf<double>(S); }
TEST(norminf_C, 400000, 2400000) { norminf<cd>(S); }

// norms and extremes that need no squares hold for every magnitude
inline double gmag(Src &S, int lo, int hi) { return (S.unit() * 2 - 1) * std::ldexp(1.0, (int)S.range(lo, hi)); }
template <class T> T gmag_t(Src &S, int lo, int hi);
template <> inline double gmag_t<double>(Src &S, int lo, int hi) { return gmag(S, lo, hi); }
template <> inline cd gmag_t<cd>(Src &S, int lo, int hi) { double a = gmag(S, lo, hi), b = S.coin(1, 5) ? 0.0 : gmag(S, lo, hi); return S.coin(1, 8) ? cd(0, a) : cd(a, b); }
inline ld_t modulus(double x) { return fabsl((ld_t)x); }
inline ld_t modulus(cd x) { return hypotl((ld_t)x.real(), (ld_t)x.imag()); }
template <class T> void magnitudes(Src &S) {
  int hi = (int)S.range(-1000, 1010), lo = S.coin() ? hi - (int)S.range(0, 60) : -1020;
  if (lo < -1021) lo = -1021;
  if (lo > hi) lo = hi;
  Arr<T> a(Dims{S.range(1, 8), S.range(1, 8)});
  for (auto &x : a.v) x = gmag_t<T>(S, lo, hi);
  Tensor<T> t = mk(a);
  NOTE("magnitudes " << tname<T>() << " " << show(a));
  label(hi > 510 ? "squares overflow" : hi < -510 ? "squares underflow" : "moderate");
  different(a);
  ld_t mx = 0, best = 0;
  for (auto &x : a.v) if (modulus(x) > mx) mx = modulus(x);
  for (long i = 0; i < a.d[0]; ++i) {
    ld_t s = 0;
    for (long j = 0; j < a.d[1]; ++j) s += modulus(a(i, j));
    if (s > best) best = s;
  }
  ld_t tiny = 4 * 5e-324L, u = 2.3e-16L;
  double n0 = norm0(t), ni = matrix_norminf(t);
  CHECK(fabsl(n0 - mx) <= 4 * u * mx + tiny, "norm0 is " << n0 << " instead of " << (double)mx);
  CHECK(fabsl(ni - best) <= (a.d[1] + 4) * (u * best + tiny), "matrix_norminf is " << ni << " instead of " << (double)best);
  extremes(a, t);
  expect_eq("the argument afterwards", t, a);
}
TEST(magnitudes_R, 240000, 1440000) { magnitudes<double>(S); }
TEST(magnitudes_C, 240000, 1440000) { magnitudes<cd>(S); }
