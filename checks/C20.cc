#include "la.h"
#include <tensor/linalg.h>
#include <tensor/rand.h>
using namespace tensor;
const char *pbt::PROPERTY = "C20";
const char *pbt::RULE =
    "Matrices of 1-50 rows with a known dominant eigenvalue (positive, negative, complex) at least twice as large in modulus as the others: normal, triangular and "
    "similar to a diagonal through a well-conditioned matrix; left and right vectors; dense, sparse and function forms; with and without starting vectors and iteration "
    "limits. Eigenvalue and residual are compared with the requested tolerance. Non-trivial: two or more rows and at least two non-zero eigenvalues.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "the dominant eigenvalue is simple and at least twice as large in modulus as every other one, and the iteration limit is large enough for the gap",
    "left vectors satisfy l*A = e*l (no conjugation)", "tolerances of 1e-13 and above"};

template <class T> struct Apply {
  Tensor<T> m;
  bool left;
  const Tensor<T> operator()(const Tensor<T> &x) const { return left ? mmult(x, m) : mmult(m, x); }
};
template <class T> T dominant(Lcg &g);
template <> double dominant<double>(Lcg &g) { double x = 1 + g.u(); return (g.next() & 1) ? -x : x; }
template <> cd dominant<cd>(Lcg &g) { double x = 1 + g.u(), t = 6.283185307179586 * g.u(); return (g.next() % 4) ? cd(x * std::cos(t), x * std::sin(t)) : cd(-x, 0); }

template <class T> void power(Src &S) {
  long n = la_size(S);
  Lcg g(S);
  set_seed((unsigned long)g.next());
  bool tight = S.coin(1, 3);   // a wide gap, so that the default iteration limit is enough
  double ratio = tight ? 0.03 : S.elem({0.5, 0.1, 0.4}), sc = S.elem({1.0, 1.0, 1e-3, 1e4});
  std::vector<T> ev;
  for (long i = 0; i < n; ++i) ev.push_back(i == 0 ? dominant<T>(g) * T(sc) : (g.next() % 5 == 0) ? T(0) : rnd<T>(g) * T(0.7 * ratio * sc));
  Arr<T> a, rv, lv;   // matrix, dominant right and left vectors (left without conjugation)
  int kind = (int)S.weighted({4, 3, 2});
  double kappa = 1;
  label(std::vector<std::string>{"normal", "similar to a diagonal", "permuted diagonal"}[kind]);
  if (kind == 0) {
    Arr<T> u = unitary<T>(S, g, n);
    a = mm(u, mm(diag_of(ev, n, n), adj(u)));
    rv = col(u, 0);
    lv = rv;
    for (auto &x : lv.v) x = cj(x);
  } else if (kind == 1) {   // (I + N) D (I - N + N^2 ...) with N strictly triangular and nilpotent of order two
    Arr<T> w = ident<T>(n), wi = ident<T>(n);
    long h = n / 2;
    for (long i = h; i < n; ++i) for (long j = 0; j < h; ++j) { T x = rnd<T>(g) * T(2.0 / std::max(1L, n)); w(i, j) = x; wi(i, j) = -x; }
    Arr<T> u = unitary<T>(S, g, n);
    w = mm(u, w); wi = mm(wi, adj(u));
    long pos = n > 1 ? (long)S.draw(n) : 0;
    std::swap(ev[0], ev[pos]);
    a = mm(w, mm(diag_of(ev, n, n), wi));
    rv = col(w, pos);
    lv = Arr<T>(Dims{n});
    for (long j = 0; j < n; ++j) lv.v[j] = wi(pos, j);
    std::swap(ev[0], ev[pos]);
    kappa = 3;
  } else {
    std::vector<long> p(n);
    for (long i = 0; i < n; ++i) p[i] = i;
    for (long i = n - 1; i > 0; --i) std::swap(p[i], p[g.next() % (i + 1)]);
    a = Arr<T>(Dims{n, n});
    for (long i = 0; i < n; ++i) a(p[i], p[i]) = ev[i];
    rv = Arr<T>(Dims{n});
    rv.v[p[0]] = T(1);
    lv = rv;
  }
  int form = (int)S.draw(3);
  bool left = S.coin();
  double tol = S.elem({1e-11, 1e-11, 1e-8, 1e-13, 0.0}), eff = tol > 0 ? tol : 1e-11;
  bool deftol = tol == 1e-11 && S.coin();
  size_t iter = tight ? (S.coin() ? 0 : 40) : 300;
  int start = (int)S.draw(3);
  Tensor<T> v;
  std::string st = "no starting vector";
  if (start == 1) { Arr<T> x = left ? lv : rv; for (auto &e : x.v) e = e * T(3) + rnd<T>(g) * T(0.2 * maxabs(x)); v = mk(x); st = "near the solution"; }
  if (start == 2) { v = S.coin() ? Tensor<T>(mk(Arr<T>(Dims{n + 1}, T(1)))) : Tensor<T>(mk(Arr<T>(Dims{n, 2}, T(1)))); st = "vector of another size"; }
  Tensor<T> v0 = v;
  Arr<T> v0c = ld(v);
  Tensor<T> ta = mk(a);
  NOTE("eig_power " << tname<T>() << (left ? " left" : " right") << std::vector<std::string>{" dense", " sparse", " function"}[form] << " tol " << tol << " iter " << iter << " " << st << " eigenvalues " << show(ev) << " A " << show(a));
  if (n > 1 && ev[1] != T(0)) nontrivial();
  label(std::vector<std::string>{"dense", "sparse", "function"}[form]);
  label(left ? "left" : "right");
  T e;
  if (form == 0) e = deftol ? (left ? linalg::eig_power_left(ta, &v, iter) : linalg::eig_power_right(ta, &v, iter)) : left ? linalg::eig_power_left(ta, &v, iter, tol) : linalg::eig_power_right(ta, &v, iter, tol);
  else if (form == 1) {
    Sparse<T> sa = parts(a);
    e = deftol ? (left ? linalg::eig_power_left(sa, &v, iter) : linalg::eig_power_right(sa, &v, iter)) : left ? linalg::eig_power_left(sa, &v, iter, tol) : linalg::eig_power_right(sa, &v, iter, tol);
    expect_eq("the sparse matrix afterwards", ld(sa), a, NUM);
  } else {
    Apply<T> f = {ta, left};
    e = deftol ? linalg::eig_power(f, n, &v, iter) : linalg::eig_power(f, n, &v, iter, tol);
  }
  expect_eq("the matrix afterwards", ta, a);
  expect_eq("a copy of the starting vector", v0, v0c);
  Arr<T> x = ld(v);
  if (x.d != Dims{n}) FAIL("vector of dimensions " << show(x.d));
  if (!(std::abs(frob(x) - 1) <= 1e-13)) FAIL("vector of norm " << frob(x));
  double big = std::abs(ev[0]), floor = 30 * n * EPS * frob(a);
  double bound = 6 * kappa * std::sqrt((double)n) * (eff * big) + floor;
  if (!(std::abs(e - ev[0]) <= bound)) FAIL("eigenvalue " << e << " instead of " << ev[0] << " (allowed error " << bound << ")");
  Arr<T> r = left ? mv(tr(a), x) : mv(a, x);
  for (long i = 0; i < n; ++i) r.v[i] -= ev[0] * x.v[i];
  if (!(frob(r) <= bound)) FAIL("residual of the " << (left ? "left" : "right") << " eigenvector " << frob(r) << " (allowed " << bound << ") for " << show(x));
}
TEST(power_R, 480000, 2880000) { power<double>(S); }
TEST(power_C, 320000, 1920000) { power<cd>(S); }
TEST(refuse, 3200, 19200) {
  long n = S.range(1, 5), m = n + S.range(1, 3);
  nontrivial();
  RTensor a = RTensor::ones(n, m), v;
  CTensor b = CTensor::ones(m, n), w;
  NOTE(n << "x" << m);
  switch (S.draw(4)) {
    case 0: must_refuse("eig_power_right of a rectangular matrix", [&] { linalg::eig_power_right(a, &v); }); break;
    case 1: must_refuse("eig_power_left of a rectangular matrix", [&] { linalg::eig_power_left(b, &w); }); break;
    case 2: must_refuse("eig_power_left of a rectangular sparse matrix", [&] { linalg::eig_power_left(RSparse(a), &v); }); break;
    default: must_refuse("eig_power_right of a rectangular sparse matrix", [&] { linalg::eig_power_right(CSparse(b), &w); });
  }
}
