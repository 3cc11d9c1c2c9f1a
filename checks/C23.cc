#include "la.h"
#include <tensor/linalg.h>
#include <tensor/rand.h>
using namespace tensor;
const char *pbt::PROPERTY = "C23";
const char *pbt::RULE =
    "Positive definite matrices of 1-50 rows with condition number up to twenty (random, diagonal, banded, few distinct eigenvalues), given dense, sparse or as a function "
    "acting on right-hand sides of rank 1-3; random, zero and integer right-hand sides, starting vectors (none, zero, exact, random, far from and close to the solution), tolerances and iteration limits. The true "
    "residual is compared with the tolerance. Non-trivial: two or more unknowns and a non-zero right-hand side.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the matrix is symmetric (Hermitian) positive definite with condition number at most twenty and norm between 1e-6 and 1e5, for tensors a sum of such matrices acting on one index each", "the tolerance (1e-10 by default) is absolute, as in the code"};

template <class T> struct Op1 {
  Tensor<T> m;
  const Tensor<T> operator()(const Tensor<T> &x) const { return mmult(m, x); }
};
template <class T> struct OpN {   // acts on every index: sum of one-index operators
  std::vector<Tensor<T> > m;
  const Tensor<T> operator()(const Tensor<T> &x) const {
    Tensor<T> r = Tensor<T>::zeros(x.dimensions());
    for (size_t k = 0; k < m.size(); ++k) {
      // reference action, element by element
      Dims d = dims_of(x.dimensions()), i(d.size(), 0);
      do {
        T s = 0;
        long base = offset(i, d), stride = 1;
        for (size_t q = 0; q < k; ++q) stride *= d[q];
        for (long j = 0; j < d[k]; ++j) s += m[k](i[k], j) * x[base + (j - i[k]) * stride];
        r.at(base) += s;
      } while (next_index(i, d));
    }
    return r;
  }
};
template <class T> Arr<T> spd(Src &S, Lcg &g, long n, double lo) {
  int kind = (int)S.weighted({4, 2, 1});
  label(std::vector<std::string>{"random spectrum", "few distinct eigenvalues", "banded"}[kind]);
  Arr<T> a(Dims{n, n});
  if (kind == 2) {
    for (long i = 0; i < n; ++i) a(i, i) = T(0.6 + 0.2 * g.u());
    for (long i = 0; i + 1 < n; ++i) { T x = rnd<T>(g) * T(0.15); a(i, i + 1) = x; a(i + 1, i) = cj(x); }
    return a;
  }
  std::vector<T> ev;
  for (long i = 0; i < n; ++i) ev.push_back(kind == 1 ? T(g.next() % 2 ? 1.0 : lo) : T(lo + (1 - lo) * g.u()));
  Arr<T> u = unitary<T>(S, g, n);
  a = mm(u, mm(diag_of(ev, n, n), adj(u)));
  for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) { T x = (a(i, j) + cj(a(j, i))) * 0.5; a(i, j) = x; a(j, i) = cj(x); if (i == j) a(i, j) = T(std::real(x)); }
  return a;
}
template <class T> void cgs_t(Src &S) {
  Lcg g(S);
  set_seed((unsigned long)g.next());
  int form = (int)S.draw(4);   // dense, sparse, function, function on a tensor
  double lo = S.elem({0.5, 0.1, 0.05});
  std::vector<Arr<T> > ms;
  Dims d;
  if (form == 3) {
    d = gen_dims(S, 1, 3, 4, false, 40);
    for (long n : d) ms.push_back(spd<T>(S, g, n, lo));
  } else {
    d = {la_size(S)};
    ms.push_back(spd<T>(S, g, d[0], lo));
  }
  long n = prod(d);
  OpN<T> op;
  for (auto &m : ms) op.m.push_back(mk(m));
  Arr<T> b = rnd_arr<T>(g, d);
  int rhs = (int)S.weighted({4, 2, 1, 1});
  if (rhs == 1) for (auto &x : b.v) x = T((double)(long)(g.next() % 7) - 3.0);
  if (rhs == 2) for (auto &x : b.v) x = 0;
  if (rhs == 3) for (auto &x : b.v) x *= T(1e3);
  double unit = S.elem({1.0, 1.0, 1.0, 1e-6, 1e5});   // scale of the matrix, of the right-hand side and of the tolerance
  if (unit != 1) {
    for (size_t k = 0; k < ms.size(); ++k) { for (auto &x : ms[k].v) x *= T(unit); op.m[k] = mk(ms[k]); }
    for (auto &x : b.v) x *= T(unit);
  }
  int start = (int)S.draw(6);   // none, zero, random, exact, far, close
  Arr<T> x0(d);
  if (start == 2) x0 = rnd_arr<T>(g, d);
  if (start == 3) { x0 = rnd_arr<T>(g, d); b = ld(op(mk(x0))); }
  if (start == 4) { x0 = rnd_arr<T>(g, d); for (auto &x : x0.v) x *= T(100); }
  if (start == 5) { x0 = rnd_arr<T>(g, d); b = ld(op(mk(x0))); double e = std::pow(10.0, -(double)S.range(3, 13)); for (auto &x : x0.v) x += rnd<T>(g) * T(e); }
  double tol = S.elem({0.0, 1e-10, 1e-6, 1e-3, 1e-11, 1e-13, 1e-14}) * unit, eff = tol > 0 ? tol : 1e-10;
  bool small = n <= 4 || lo >= 0.5;
  int maxiter = (small && n >= 1 && start < 2 && n <= 4 && S.coin()) || (lo == 0.5 && n >= 40) ? 0 : 400;
  Tensor<T> tb = mk(b), tx = mk(x0), tm = op.m[0], tb2 = tb, tx2 = tx;
  NOTE("cgs " << tname<T>() << std::vector<std::string>{" dense", " sparse", " function", " function on a tensor"}[form] << " tol " << tol << " maxiter " << maxiter << " start " << start << " b " << show(b) << " A " << show(ms[0]));
  if (n > 1 && rhs != 2) nontrivial();
  label(std::vector<std::string>{"dense", "sparse", "function", "function on a tensor"}[form]);
  label(std::vector<std::string>{"no start", "zero start", "random start", "exact start", "far start", "close start"}[start]);
  const Tensor<T> *px = start ? &tx : 0;
  Tensor<T> x;
  bool def = tol == 0 && maxiter == 0 && S.coin();
  switch (form) {
    case 0: x = def ? linalg::cgs(tm, tb, px) : linalg::cgs(tm, tb, px, maxiter, tol); break;
    case 1: { Sparse<T> s = parts(ms[0]); x = def ? linalg::cgs(s, tb, px) : linalg::cgs(s, tb, px, maxiter, tol); expect_eq("the sparse matrix afterwards", ld(s), ms[0], NUM); break; }
    case 2: { Op1<T> f = {tm}; x = linalg::cgs(f, tb, px, maxiter, tol); break; }
    default: x = linalg::cgs(op, tb, px, maxiter, tol);
  }
  expect_eq("the matrix afterwards", tm, ms[0]);
  expect_eq("the right-hand side afterwards", tb, b);
  expect_eq("the starting vector afterwards", tx, x0);
  if (dims_of(x.dimensions()) != d) FAIL("solution of dimensions " << show(x.dimensions()));
  Arr<T> r = sub(ld(op(x)), b);
  double bound = 1.01 * eff + 100 * n * EPS * (frob(b) + ((start ? frob(x0) : frob(b) + 1) + frob(ld(x))) * unit) / lo;
  if (!(frob(r) <= bound)) FAIL("residual " << frob(r) << " (allowed " << bound << ") for x " << show(x));
}
TEST(cgs_R, 720000, 4320000) { cgs_t<double>(S); }
TEST(cgs_C, 480000, 2880000) { cgs_t<cd>(S); }
