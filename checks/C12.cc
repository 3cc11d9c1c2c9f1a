#include "sp.h"
using namespace tensor;
const char *pbt::PROPERTY = "C12";
const char *pbt::RULE =
    "Random factors of 0-8 (rarely 40) rows and columns (vectors, rectangular, empty, any density), real and complex, dense and sparse; integer values compared exactly with the "
    "element formula, products rule and sums included; factors of up to 2^40 columns or 2^17 rows with few entries, compared as coordinate lists. Non-trivial: both factors have two or more non-zero elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "the Kronecker sum is defined for square matrices; kron2_sum orders the factors as kron2 (first factor fastest)",
    "the product and sum of two vectors are vectors (element sums for the sum); both factors have the same rank"};
inline long dim(Src &S) { return S.coin(1, 1500) ? S.range(9, 40) : S.coin(1, 20) ? 0 : S.coin(1, 20) ? S.range(1, 8) : S.range(1, 4); }
template <class T> long nnz(const Arr<T> &a) { long n = 0; for (auto &x : a.v) n += !(x == T(0)); return n; }
inline cd mulz(cd x, cd y) { return cd(x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real()); }
inline double mulz(double x, double y) { return x * y; }
template <class T> Arr<T> rkron(const Arr<T> &a, const Arr<T> &b) {
  Arr<T> r(Dims{a.d[0] * b.d[0], a.d[1] * b.d[1]});
  for (long i = 0; i < a.d[0]; ++i) for (long j = 0; j < a.d[1]; ++j)
    for (long k = 0; k < b.d[0]; ++k) for (long l = 0; l < b.d[1]; ++l) r(k + i * b.d[0], l + j * b.d[1]) = mulz(a(i, j), b(k, l));
  return r;
}
template <class T> void products(Src &S) {
  VKind v = S.coin(1, 4) ? V_REAL : V_INT;
  Arr<T> a = gen_sparse<T>(S, dim(S), dim(S), v), b = gen_sparse<T>(S, dim(S), dim(S), v);
  Tensor<T> ta = mk(a), tb = mk(b);
  Sparse<T> sa = mksp(S, a), sb = mksp(S, b);
  KeepSp<T> ka(sa), kb(sb);
  NOTE("kron " << tname<T>() << " A " << show(a) << " B " << show(b));
  if (nnz(a) > 1 && nnz(b) > 1) nontrivial();
  label(a.size() && b.size() ? "non-empty" : "empty factor");
  Arr<T> k = rkron(a, b), k2 = rkron(b, a);
  std::vector<double> bound(k.v.size()), bound2(k.v.size());
  for (size_t i = 0; i < k.v.size(); ++i) { bound[i] = v == V_INT ? 0 : 4e-16 * (1e-300 + std::abs(k.v[i])); bound2[i] = v == V_INT ? 0 : 4e-16 * (1e-300 + std::abs(k2.v[i])); }
  expect_close("kron", ld(kron(ta, tb)), k, bound);
  expect_close("kron2", ld(kron2(ta, tb)), k2, bound2);
  Sparse<T> s = kron(sa, sb), s2 = kron2(sa, sb);
  well_formed("sparse kron", s);
  well_formed("sparse kron2", s2);
  expect_close("sparse kron", ld(s), k, bound);
  expect_close("sparse kron2", ld(s2), k2, bound2);
  expect_eq("full of the sparse kron", full(s), ld(s));
  expect_eq("A afterwards", ta, a);
  expect_eq("B afterwards", tb, b);
  ka.check("A");
  kb.check("B");
}
TEST(kron_R, 240000, 2000000) { products<double>(S); }
TEST(kron_C, 240000, 2000000) { products<cd>(S); }

template <class T> void mixed(Src &S) {   // kron(A,B)*kron(C,D) = kron(A*C,B*D)
  long m = S.range(1, 4), n = S.range(1, 4), p = S.range(1, 4), q = S.range(1, 4), x = S.range(1, 4), y = S.range(1, 4);
  Arr<T> a = gen_arr<T>(S, Dims{m, n}, V_INT), c = gen_arr<T>(S, Dims{n, p}, V_INT), b = gen_arr<T>(S, Dims{q, x}, V_INT), d = gen_arr<T>(S, Dims{x, y}, V_INT);
  NOTE("mixed product " << tname<T>() << " A " << show(a) << " B " << show(b) << " C " << show(c) << " D " << show(d));
  if (nnz(a) > 1 && nnz(b) > 1) nontrivial();
  Arr<T> want = rkron(mm(a, c), mm(b, d));
  expect_eq("kron(A,B)*kron(C,D)", mmult(kron(mk(a), mk(b)), kron(mk(c), mk(d))), want, NUM);
  expect_eq("kron(A*C,B*D)", kron(mmult(mk(a), mk(c)), mmult(mk(b), mk(d))), want, NUM);
  expect_eq("sparse kron(A,B) * dense kron(C,D)", mmult(kron(parts(a), parts(b)), kron(mk(c), mk(d))), want, NUM);
  expect_eq("dense kron(A,B) * sparse kron(C,D)", mmult(kron(mk(a), mk(b)), kron(parts(c), parts(d))), want, NUM);
}
TEST(mixed_R, 120000, 800000) { mixed<double>(S); }
TEST(mixed_C, 120000, 800000) { mixed<cd>(S); }

template <class T> void sums(Src &S) {
  VKind v = S.coin(1, 4) ? V_REAL : V_INT;
  long n = dim(S), m = dim(S);
  if (S.coin(1, 4)) {
    Arr<T> a = gen_arr<T>(S, Dims{n}, v), b = gen_arr<T>(S, Dims{m}, v), w(Dims{n * m}), k(Dims{n * m}), k2(Dims{n * m});
    std::vector<double> bound(n * m, 0.0), bk, bk2;
    for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) { w.v[i + n * j] = a.v[i] + b.v[j]; k.v[j + m * i] = k2.v[i + n * j] = mulz(a.v[i], b.v[j]); }
    for (auto &x : k.v) bk.push_back(v == V_INT ? 0 : 4e-16 * std::abs(x));
    for (auto &x : k2.v) bk2.push_back(v == V_INT ? 0 : 4e-16 * std::abs(x));
    NOTE("vectors " << tname<T>() << " " << show(a) << " " << show(b));
    label("vectors");
    if (n > 1 && m > 1) nontrivial();
    expect_close("kron of vectors", ld(kron(mk(a), mk(b))), k, bk);
    expect_close("kron2 of vectors", ld(kron2(mk(a), mk(b))), k2, bk2);
    expect_eq("kron2_sum of vectors", kron2_sum(mk(a), mk(b)), w, NUM);
    return;
  }
  Arr<T> a = gen_sparse<T>(S, n, n, v), b = gen_sparse<T>(S, m, m, v);
  NOTE("kron2_sum " << tname<T>() << " " << show(a) << " " << show(b));
  label("matrices");
  if (nnz(a) > 1 && nnz(b) > 1) nontrivial();
  Arr<T> w(Dims{n * m, n * m});
  for (long j = 0; j < m; ++j)
    for (long i = 0; i < n; ++i) {
      for (long k = 0; k < n; ++k) w(i + n * j, k + n * j) += a(i, k);
      for (long l = 0; l < m; ++l) w(i + n * j, i + n * l) += b(j, l);
    }
  Tensor<T> ta = mk(a), tb = mk(b);
  Sparse<T> sa = mksp(S, a), sb = mksp(S, b);
  expect_eq("kron2_sum", kron2_sum(ta, tb), w, NUM);
  expect_sp("sparse kron2_sum", kron2_sum(sa, sb), w);
  expect_eq("A afterwards", ta, a);
  expect_eq("B afterwards", tb, b);
  expect_sp("sparse A afterwards", sa, a);
  expect_sp("sparse B afterwards", sb, b);
}
TEST(sums_R, 200000, 1500000) { sums<double>(S); }
TEST(sums_C, 200000, 1500000) { sums<cd>(S); }

template <class T> void wide(Src &S) {   // coordinates far beyond what a dense matrix could hold
  bool huge = S.coin(), big_b = S.coin();
  Wide<T> a = gen_wide<T>(S, false, huge), b;
  if (big_b && !huge) b = gen_wide<T>(S, false, false);
  else { b = gen_wide<T>(S, false, false); long c = S.range(1, 4); std::map<std::pair<long, long>, T> e; for (auto &x : b.e) e[std::make_pair(x.first.first, x.first.second % c)] = x.second; b.c = c; b.e = e; }
  if (S.coin()) std::swap(a, b);
  NOTE("wide kron " << tname<T>() << " A " << show(a) << " B " << show(b));
  label(huge ? "more than 2^31 columns" : "many columns");
  if (a.e.size() > 1 && b.e.size() > 1) nontrivial();
  Wide<T> k, k2;
  k.r = k2.r = a.r * b.r;
  k.c = k2.c = a.c * b.c;
  for (auto &x : a.e) for (auto &y : b.e) {
    T v = mulz(x.second, y.second);
    k.add(y.first.first + x.first.first * b.r, y.first.second + x.first.second * b.c, v);
    k2.add(x.first.first + y.first.first * a.r, x.first.second + y.first.second * a.c, v);
  }
  Sparse<T> sa = mk(S, a), sb = mk(S, b);
  expect_wide("sparse kron", kron(sa, sb), k);
  expect_wide("sparse kron2", kron2(sa, sb), k2);
  expect_wide("A afterwards", sa, a);
  expect_wide("B afterwards", sb, b);
}
TEST(wide_R, 40000, 300000) { wide<double>(S); }
TEST(wide_C, 40000, 300000) { wide<cd>(S); }
template <class T> void tall(Src &S) {   // many rows; the result is rebuilt from the coordinates of the factors
  Wide<T> a = gen_wide<T>(S, true, false), b = gen_wide<T>(S, false, false);
  long c = S.range(1, 4);
  std::map<std::pair<long, long>, T> e;
  for (auto &x : b.e) e[std::make_pair(x.first.first, x.first.second % c)] = x.second;
  b.c = c; b.e = e;
  if (b.r > 2) b.r = 2, b.e.clear(), b.add(1, 0, T(2.0)), b.add(0, c - 1, T(-3.0));
  if (S.coin()) std::swap(a, b);
  NOTE("tall kron " << tname<T>() << " A " << show(a) << " B " << show(b));
  label("many rows");
  if (a.e.size() > 1 && b.e.size() > 1) nontrivial();
  Wide<T> k, k2;
  k.r = k2.r = a.r * b.r;
  k.c = k2.c = a.c * b.c;
  for (auto &x : a.e) for (auto &y : b.e) {
    T v = mulz(x.second, y.second);
    k.add(y.first.first + x.first.first * b.r, y.first.second + x.first.second * b.c, v);
    k2.add(x.first.first + y.first.first * a.r, x.first.second + y.first.second * a.c, v);
  }
  expect_wide("sparse kron", kron(mk(S, a), mk(S, b)), k);
  expect_wide("sparse kron2", kron2(mk(S, a), mk(S, b)), k2);
}
TEST(tall_R, 600, 3600) { tall<double>(S); }
TEST(tall_C, 600, 3600) { tall<cd>(S); }
template <class T> void large_sum(Src &S) {   // hundreds of rows in both factors: more than 2^16 in the sum
  long n = S.range(180, 300), m = S.range(180, 300);
  Arr<T> a(Dims{n, n}), b(Dims{m, m});
  for (long k = S.range(1, 12); k > 0; --k) { a(coord(S, n), coord(S, n)) = gen_val<T>(S, V_INT); b(coord(S, m), coord(S, m)) = gen_val<T>(S, V_INT); }
  NOTE("large kron2_sum " << tname<T>() << " " << n << " " << m << " seeds " << show(a.v));
  nontrivial();
  Wide<T> w;
  w.r = w.c = n * m;
  for (long i = 0; i < n; ++i) for (long k = 0; k < n; ++k) if (!(a(i, k) == T(0))) for (long j = 0; j < m; ++j) w.add(i + n * j, k + n * j, a(i, k));
  for (long j = 0; j < m; ++j) for (long l = 0; l < m; ++l) if (!(b(j, l) == T(0))) for (long i = 0; i < n; ++i) w.add(i + n * j, i + n * l, b(j, l));
  expect_wide("sparse kron2_sum", kron2_sum(parts(a), parts(b)), w);
}
TEST(large_sum_R, 80, 480) { large_sum<double>(S); }
TEST(large_sum_C, 80, 480) { large_sum<cd>(S); }
