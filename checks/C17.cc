#include "la.h"
#include <tensor/linalg.h>
using namespace tensor;
const char *pbt::PROPERTY = "C17";
const char *pbt::RULE =
    "Matrices of 1-50 rows built as U*diag(s)*V^H with s spanning up to 8 decades (U, V random, permutations or identities), triangular, banded or zero-pivot ones, "
    "right-hand sides of rank 1-4, real and complex. Direct solutions: the residual is compared with the backward-error bound. Solutions by singular values: compared "
    "with the pseudoinverse known from the construction, with the tolerance inside a gap of s. Non-trivial: three or more unknowns.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the system has at least one equation and one right-hand side", "the tolerance of solve_with_svd is an absolute threshold on the singular values (its documentation), DBL_EPSILON by default"};

inline Dims rhs_dims(Src &S, long n) {
  Dims d = {n};
  for (int k = (int)S.weighted({3, 3, 2, 1}); k > 0; --k) d.push_back(S.range(1, 4));
  return d;
}
template <class T> Arr<T> square(Src &S, Lcg &g, long n, double *cond) {
  Arr<T> a(Dims{n, n});
  *cond = 1e3 * n;
  switch (S.weighted({4, 1, 1, 1})) {
    case 0: {
      double dec = S.elem({0.0, 1.0, 3.0, 8.0});
      std::vector<T> s(n);
      double smax = 0, smin = 1e300, sc = S.elem({1.0, 1e-5, 1e6});
      for (long i = 0; i < n; ++i) { double x = sc * std::pow(10.0, -dec * g.u()); s[i] = T(x); smax = std::max(smax, x); smin = std::min(smin, x); }
      *cond = smax / smin;
      label("decades " + std::to_string((int)dec));
      return mm(unitary<T>(S, g, n), mm(diag_of(s, n, n), adj(unitary<T>(S, g, n))));
    }
    case 1:
      label("triangular");
      { bool up = S.coin(); for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) if (i == j) a(i, j) = T(1.0 + g.u()); else if ((i < j) == up) a(i, j) = rnd<T>(g) / T((double)n); }
      return a;
    case 2:
      label("zero diagonal");   // cyclic shift plus a small perturbation off the diagonal
      for (long i = 0; i < n; ++i) a((i + 1) % n, i) = T(1.0 + g.u());
      if (n > 2) for (int k = 0; k < 2; ++k) { long i = g.next() % n, j = g.next() % n; if (i != j && i != (j + 1) % n) a(i, j) += rnd<T>(g) * T(0.3); }
      return a;
    default:
      label("diagonally dominant");
      for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) a(i, j) = i == j ? T((double)n * (1 + g.u())) : rnd<T>(g);
      return a;
  }
}
template <class T> void residual(const std::string &what, const Arr<T> &a, const Arr<T> &x0, const Arr<T> &b0, double factor) {
  Arr<T> x = as_mat(x0), b = as_mat(b0), r = sub(mm(a, x), b);
  double fa = frob(a);
  long n = a.d[0];
  for (long j = 0; j < b.d[1]; ++j) {
    double bound = factor * n * EPS * (fa * colnorm(x, j) + colnorm(b, j));
    if (!(colnorm(r, j) <= bound)) FAIL(what << ": |A*x-b| is " << colnorm(r, j) << " above " << bound << " for column " << j << " of " << show(x));
  }
}
template <class T> void solve_t(Src &S) {
  long n = la_size(S);
  Lcg g(S);
  double cond;
  Arr<T> a = square<T>(S, g, n, &cond);
  Arr<T> b = S.coin(1, 3) ? rnd_arr<T>(g, rhs_dims(S, n)) : Arr<T>();
  if (b.d.empty()) {   // known solution of small integers
    Dims d = rhs_dims(S, n);
    Arr<T> x(d);
    for (auto &e : x.v) e = T((double)(long)(g.next() % 19) - 9.0);
    b = mm(a, as_mat(x));
    b.d = d;
  }
  Tensor<T> ta = mk(a), tb = mk(b);
  Tensor<T> tb2 = tb, ta2 = ta;   // shared copies must not be overwritten
  NOTE("solve " << tname<T>() << " A " << show(a) << " B " << show(b));
  if (n > 2) nontrivial();
  Tensor<T> x = linalg::solve(ta, tb);
  CHECK(dims_of(x.dimensions()) == b.d, "solution of dimensions " << show(x.dimensions()));
  residual("solve", a, ld(x), b, 20);
  expect_eq("A afterwards", ta, a);
  expect_eq("B afterwards", tb, b);
  if (S.coin(1, 3)) {
    Tensor<T> y = linalg::solve_with_svd(ta, tb);
    CHECK(dims_of(y.dimensions()) == b.d, "solve_with_svd: solution of dimensions " << show(y.dimensions()));
    residual("solve_with_svd", a, ld(y), b, 50 * std::min(cond, 1e8) );
    expect_eq("A afterwards", ta, a);
    expect_eq("B afterwards", tb, b);
  }
  if (S.coin(1, 150)) {
    int o = (int)S.draw(3);
    Dims d = b.d;
    d[0] += o == 0 ? 1 : 0;
    Arr<T> w = o == 1 ? Arr<T>(Dims{n, n + 1}) : a;
    if (o == 2) for (long j = 0; j < n; ++j) w(0, j) = 0;
    Tensor<T> tw = mk(w), td = mk(Arr<T>(d));
    must_refuse("solving " + show(w.d) + " with " + show(d) + (o == 2 ? " (singular)" : ""), [&] { linalg::solve(tw, td); });
    if (o == 0) must_refuse("solving by singular values " + show(w.d) + " with " + show(d), [&] { linalg::solve_with_svd(tw, td); });
  }
}
TEST(solve_R, 480000, 2880000) { solve_t<double>(S); }
TEST(solve_C, 320000, 1920000) { solve_t<cd>(S); }

template <class T> void pinv(Src &S) {
  long m = la_size(S), n = S.coin(1, 3) ? m : la_size(S), k = std::min(m, n);
  if (m * n > 900) DISCARD();
  Lcg g(S);
  Dims bd = rhs_dims(S, m);
  Arr<T> b = rnd_arr<T>(g, bd);
  // singular values: kept ones from 0.2 over up to eight decades, dropped ones zero or up to 1e-3, threshold 0.01, all scaled
  double sc = S.coin() ? 1.0 : S.elem({1e3, 1e6, 1e-3, 1e-6, 1e9}), decades = S.coin() ? 0.0 : S.elem({2.0, 5.0, 8.0, 9.5});
  label("scale " + std::to_string((int)std::log10(sc * 1.0001)) + (decades > 0 ? ", wide spectrum" : ""));
  int mode = (int)S.weighted({3, 3, 2, 1});
  label(std::vector<std::string>{"full rank", "some dropped", "exact zeros", "zero matrix"}[mode]);
  label(m == n ? "square" : m > n ? "tall" : "wide");
  std::vector<double> s(k), inv(k);
  double tol = 0;
  if (mode == 1) tol = 0.01 * sc;
  double smax = 0;
  bool any = false;
  for (long i = 0; i < k; ++i) {
    bool drop = mode == 3 || (mode && S.coin(1, 3));
    s[i] = drop ? (mode == 1 && S.coin() ? sc * 1e-3 * g.u() : 0.0) : sc * (decades > 0 ? 0.2 * std::pow(10.0, decades * g.u()) : 0.2 + 4.8 * g.u());
    inv[i] = drop ? 0 : 1 / s[i];
    smax = std::max(smax, s[i]);
    any |= !drop;
  }
  Arr<T> u, v;
  if (mode >= 2) {   // exact zeros: permuted diagonals keep them exact
    u = Arr<T>(Dims{m, m}); v = Arr<T>(Dims{n, n});
    std::vector<long> p(m), q(n);
    for (long i = 0; i < m; ++i) p[i] = i;
    for (long i = 0; i < n; ++i) q[i] = i;
    for (long i = m - 1; i > 0; --i) std::swap(p[i], p[g.next() % (i + 1)]);
    for (long i = n - 1; i > 0; --i) std::swap(q[i], q[g.next() % (i + 1)]);
    for (long i = 0; i < m; ++i) u(p[i], i) = T(1);
    for (long i = 0; i < n; ++i) v(q[i], i) = T(-1);
  } else { u = unitary<T>(S, g, m); v = unitary<T>(S, g, n); }
  std::vector<T> st(k), it(k);
  for (long i = 0; i < k; ++i) { st[i] = T(s[i]); it[i] = T(inv[i]); }
  Arr<T> a = mm(u, mm(diag_of(st, m, n), adj(v))), want = mm(v, mm(diag_of(it, n, m), mm(adj(u), as_mat(b))));
  Tensor<T> ta = mk(a), tb = mk(b), ta2 = ta, tb2 = tb;
  NOTE("solve_with_svd " << tname<T>() << " tol " << tol << " s " << show(s) << " A " << show(a) << " B " << show(b));
  if (n > 2) nontrivial();
  Tensor<T> x = tol > 0 ? linalg::solve_with_svd(ta, tb, tol) : S.coin() ? linalg::solve_with_svd(ta, tb) : linalg::solve_with_svd(ta, tb, 0.02 * sc);
  Dims xd = bd;
  xd[0] = n;
  CHECK(dims_of(x.dimensions()) == xd, "solution of dimensions " << show(x.dimensions()) << " instead of " << show(xd));
  Arr<T> got = as_mat(ld(x)), bm = as_mat(b);
  double sep = mode == 1 ? 1e4 : 1;   // subspaces separated by a gap: perturbation eps/gap
  for (long j = 0; j < bm.d[1]; ++j) {
    double bound = 200 * (m + n) * EPS * sep * (smax / (0.04 * sc * sc)) * colnorm(bm, j);
    double err = colnorm(sub(got, want), j);
    if (!(err <= bound)) FAIL("column " << j << " differs from the pseudoinverse solution by " << err << " (allowed " << bound << "): " << show(got) << " instead of " << show(want));
  }
  expect_eq("A afterwards", ta, a);
  expect_eq("B afterwards", tb, b);
}
TEST(pinv_R, 320000, 1920000) { pinv<double>(S); }
TEST(pinv_C, 240000, 1440000) { pinv<cd>(S); }

// a singular value equal to the tolerance does not exceed it: diagonal matrices of powers of two, whose singular values are exact
template <class T> void pinv_edge(Src &S) {
  long m = S.range(1, 8), n = S.coin() ? m : S.range(1, 8), k = std::min(m, n);
  double tol = std::ldexp(1.0, (int)S.range(-40, 40));
  Arr<T> a(Dims{m, n});
  std::vector<double> s(k);
  bool eq = false;
  for (long i = 0; i < k; ++i) {
    s[i] = std::ldexp(tol, S.coin(1, 3) ? 0 : (int)S.range(-3, 3));
    if (S.coin(1, 8)) s[i] = 0;
    eq |= s[i] == tol;
    a(i, i) = T(S.coin() ? s[i] : -s[i]);
  }
  Lcg g(S);
  Dims bd = rhs_dims(S, m);
  Arr<T> b(bd);
  for (auto &x : b.v) x = rint_<T>(g, 9);
  Tensor<T> ta = mk(a), tb = mk(b);
  NOTE("solve_with_svd " << tname<T>() << " tol " << tol << " diagonal " << show(s) << " A " << show(a) << " B " << show(b));
  label(eq ? "a singular value equal to the tolerance" : "none equal");
  std::vector<double> sorted = s;
  std::sort(sorted.rbegin(), sorted.rend());
  RTensor found = linalg::svd(ta);
  for (long i = 0; i < k; ++i) if (found[i] != sorted[i]) DISCARD();
  if (eq) nontrivial();
  Arr<T> bm = as_mat(b), got = as_mat(ld(linalg::solve_with_svd(ta, tb, tol)));
  for (long j = 0; j < bm.d[1]; ++j)
    for (long i = 0; i < n; ++i) {
      T want = i < k && s[i] > tol ? bm(i, j) / a(i, i) : T(0);
      if (!(std::abs(got(i, j) - want) <= 1e-12 * (colnorm(bm, j) / tol))) FAIL("element " << i << "," << j << " is " << got(i, j) << " instead of " << want);
    }
}
TEST(pinv_edge_R, 40000, 300000) { pinv_edge<double>(S); }
TEST(pinv_edge_C, 40000, 300000) { pinv_edge<cd>(S); }
