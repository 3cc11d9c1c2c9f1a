#include "la.h"
#include <tensor/linalg.h>
#include <tensor/rand.h>
#include <tensor/arpack.h>
using namespace tensor;
const char *pbt::PROPERTY = "C21";
const char *pbt::RULE =
    "Real symmetric and general complex matrices (normal and non-normal) of 1-40 (rarely 120) rows whose eigenvalues are known and separated under the chosen criterion; every criterion, "
    "number of eigenvalues, dense, sparse and function form, with and without vectors, starting vectors and the convergence flag. The values are matched one to one with "
    "those the criterion selects, the vectors by residual and norm. Unwanted eigenvalues that repeat (low rank); clustered spectra for which the iteration may give up, with and without a limit on the iterations; the solver object driven step by step, to the end or abandoned, with its memory counted. Non-trivial: two or more rows and fewer eigenvalues requested than there are.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "eigenvalues are separated under the criterion; a start vector has components along all eigenvectors",
    "above 20 rows only the outer part of the spectrum is requested (the inner part need not converge in the iteration limit)",
    "criteria by imaginary part of real matrices of up to four rows, which are solved in full, may be refused or not", "real matrices are symmetric: the library solves the symmetric problem for them", "one eigenvalue less than rows can be requested from real matrices of 5 or more rows, two less from complex ones"};

template <class T> struct Fun {
  Tensor<T> m;
  Arr<T> *first;   // the first argument it gets
  const Tensor<T> operator()(const Tensor<T> &x) const { if (first && first->d.empty()) *first = ld(x); return mmult(m, x); }
};
// value whose order the criterion uses, largest first
inline double key(cd x, int crit) {
  switch (crit) {
    case 0: return std::abs(x);
    case 1: return -std::abs(x);
    case 2: return x.real();
    case 3: return -x.real();
    case 4: return x.imag();
    default: return -x.imag();
  }
}
template <class T> T make_eig(Lcg &g, double k, int crit, double width);   // an eigenvalue with |key| = k
template <> double make_eig<double>(Lcg &g, double k, int crit, double) { double s = (g.next() & 1) ? 1 : -1; return crit < 2 ? s * std::abs(k) : k; }
template <> cd make_eig<cd>(Lcg &g, double k, int crit, double width) {
  double o = width * g.s1(), t = 6.283185307179586 * g.u();
  if (crit < 2) return std::polar(std::abs(k), t);
  return crit < 4 ? cd(k, o) : cd(o, k);
}
template <class T> struct Cplx { static const bool value = true; };
template <> struct Cplx<double> { static const bool value = false; };

template <class T> void eigs_t(Src &S) {
  Lcg g(S);
  set_seed((unsigned long)g.next());
  bool big = S.coin(1, 25);
  long n = big ? (S.coin(1, 40) ? S.range(41, 120) : S.range(21, 40)) : S.coin(1, 3) ? S.range(1, 6) : S.range(1, 20);
  int crit = (int)S.draw(Cplx<T>::value ? 6 : 4);
  if (big && crit == 1) crit = 0;
  long top = n <= 4 ? n : Cplx<T>::value ? n - 2 : n - 1;
  long neig = big ? S.range(1, 4) : S.coin(1, 6) ? top : S.range(1, top);
  // distinct keys on a jittered grid, shuffled; criteria by magnitude use positive keys
  std::vector<T> ev;
  double sc = S.elem({1.0, 1.0, 1e-3, 1e3}), off = crit < 2 ? 0.3 : -0.15 * (double)n;
  for (long i = 0; i < n; ++i) ev.push_back(make_eig<T>(g, sc * (off + 0.3 * (double)i + 0.1 * g.u()), crit, sc));
  if (big) for (long i = 0; i < n - neig; ++i) ev[i] *= T(0.5);   // stretch the gap to the wanted ones
  if (big && crit >= 2) for (long i = 0; i < n; ++i) ev[i] = make_eig<T>(g, sc * (i < n - neig ? 0.3 * g.u() : 1.0 + 0.4 * (double)(i - n + neig) + 0.1 * g.u()) * (key(cd(1, 1), crit) > 0 ? 1 : -1), crit, 0.3 * sc);
  if (!big && crit == 1 && S.coin(1, 5)) ev[0] = T(0);
  if (neig < n && S.coin(1, 4)) {   // the others take few values: low rank matrices, multiples of the identity
    long few = S.range(1, 3), first = crit == 1 ? neig : 0, last = crit == 1 ? n : n - neig;
    for (long i = first; i < last; ++i) ev[i] = ev[first + g.next() % std::min(few, last - first)];
    if (crit == 0 && S.coin()) for (long i = first; i < last; ++i) ev[i] = T(0);
    label("repeated unwanted eigenvalues");
  }
  for (long i = n - 1; i > 0; --i) std::swap(ev[i], ev[g.next() % (i + 1)]);
  Arr<T> a, u = unitary<T>(S, g, n);
  bool normal = !Cplx<T>::value || S.coin();
  a = mm(u, mm(diag_of(ev, n, n), adj(u)));
  double kappa = 1;
  if (!normal) {   // well-conditioned, not orthogonal eigenvectors
    Arr<T> w = ident<T>(n), wi = w;
    for (long i = n / 2; i < n; ++i) for (long j = 0; j < n / 2; ++j) { T x = rnd<T>(g) * T(1.0 / std::max(1L, n)); w(i, j) = x; wi(i, j) = -x; }
    a = mm(u, mm(mm(w, mm(diag_of(ev, n, n), wi)), adj(u)));
    kappa = 4;
  } else if (!Cplx<T>::value) {
    for (long j = 0; j < n; ++j) for (long i = 0; i < j; ++i) { T x = (a(i, j) + a(j, i)) * 0.5; a(i, j) = x; a(j, i) = x; }
  }
  std::vector<cd> all(ev.begin(), ev.end());
  std::sort(all.begin(), all.end(), [&](cd x, cd y) { return key(x, crit) > key(y, crit); });
  std::vector<cd> want(all.begin(), all.begin() + neig);
  // the choice must not be ambiguous
  if (neig < n && key(all[neig - 1], crit) - key(all[neig], crit) < 0.02 * sc) DISCARD();
  bool vec = S.coin(2, 3), flag = S.coin();
  int start = vec ? (int)S.draw(3) : 0, form = (int)S.draw(3);
  Tensor<T> V;
  if (start == 1) { Arr<T> x = rnd_arr<T>(g, Dims{n}); V = mk(x); }
  if (start == 2) V = n > 1 ? Tensor<T>(Tensor<T>::ones(n - 1)) : Tensor<T>();   // too short to be a starting vector
  Tensor<T> v0 = V;
  Arr<T> v0c = ld(V);
  bool conv = false;
  Tensor<T> ta = mk(a);
  static const char *names[] = {"largest magnitude", "smallest magnitude", "largest real", "smallest real", "largest imaginary", "smallest imaginary"};
  NOTE("eigs " << tname<T>() << " n " << n << " neig " << neig << " " << names[crit] << (form == 0 ? " dense" : form == 1 ? " sparse" : " function") << (vec ? " vectors" : "") << (start == 1 ? " start" : "") << " eigenvalues " << show(all) << " A " << show(a));
  if (n > 1 && neig < n) nontrivial();
  label(names[crit]);
  label(n <= 4 ? "up to 4 rows" : n <= 20 ? "5-20 rows" : n <= 40 ? "21-40 rows" : "41-120 rows");
  Tensor<T> *pv = vec ? &V : 0;
  bool *pf = flag ? &conv : 0;
  Tensor<T> e;
  if (form == 0) e = linalg::eigs(ta, crit, neig, pv, pf);
  else if (form == 1) { Sparse<T> s = parts(a); e = linalg::eigs(s, crit, neig, pv, pf); expect_eq("the sparse matrix afterwards", ld(s), a, NUM); }
  else {
    Arr<T> first;
    Fun<T> f = {ta, &first};
    e = linalg::eigs(f, n, crit, neig, pv, pf);
    if (start == 1 && n > 4) {   // the iteration starts where it was told to
      double c = 0, nv = 0, nf = 0;
      cd dot = 0;
      for (long i = 0; i < n; ++i) { dot += std::conj(cd(first.v[i])) * cd(v0c.v[i]); nv += std::norm(v0c.v[i]); nf += std::norm(first.v[i]); }
      c = std::abs(dot) / std::sqrt(nv * nf);
      if (!(c > 1 - 1e-10)) FAIL("the iteration did not start at the vector given: the first vector is " << show(first) << " instead of one along " << show(v0c));
    }
  }
  expect_eq("the matrix afterwards", ta, a);
  expect_eq("a copy of the starting vector", v0, v0c);
  if (flag && !conv) FAIL("reported as not converged");
  if (e.rank() != 1 || e.size() != neig) FAIL(show(e.dimensions()) << " eigenvalues instead of " << neig);
  double nrm = frob(a), tol = 1e-10 * kappa * nrm;
  std::vector<cd> got(e.begin_const(), e.end_const()), rest = want;
  for (auto &x : got) {
    size_t best = 0;
    for (size_t j = 1; j < rest.size(); ++j) if (std::abs(x - rest[j]) < std::abs(x - rest[best])) best = j;
    if (rest.empty() || !(std::abs(x - rest[best]) <= tol)) FAIL("eigenvalues " << show(got) << " instead of " << show(want));
    rest.erase(rest.begin() + best);
  }
  if (vec) {
    Arr<T> v = ld(V);
    if (v.d != Dims({n, neig})) FAIL("vectors of dimensions " << show(v.d));
    Arr<T> r = mm(a, v);
    for (long j = 0; j < neig; ++j) {
      if (!(std::abs(colnorm(v, j) - 1) <= 1e-10)) FAIL("vector " << j << " has norm " << colnorm(v, j));
      for (long i = 0; i < n; ++i) r(i, j) -= v(i, j) * e[j];
      if (!(colnorm(r, j) <= tol)) FAIL("|A*v-e*v| is " << colnorm(r, j) << " (allowed " << tol << ") for vector " << j << ", eigenvalue " << e[j] << ": " << show(v));
    }
  }
}

// spectra so clustered that the iteration may give up: then it says so
template <class T> void hard(Src &S) {
  Lcg g(S);
  set_seed((unsigned long)g.next());
  long n = S.range(40, 90), neig = S.range(1, 3);
  int crit = 1, form = (int)S.draw(3);
  double decades = S.elem({2.0, 6.0, 9.0, 12.0});
  Arr<T> a(Dims{n, n});
  for (long i = 0; i < n; ++i) a(i, i) = T(std::pow(10.0, -decades * (double)(n - 1 - i) / (double)(n - 1)) * (1 + 0.01 * g.u()));
  NOTE("clustered eigs " << tname<T>() << " n " << n << " neig " << neig << " decades " << decades << " form " << form);
  nontrivial();
  Tensor<T> ta = mk(a), V, e;
  bool conv = false, vec = S.coin();
  Tensor<T> *pv = vec ? &V : 0;
  auto run = [&](bool *pf) -> Tensor<T> {
    if (form == 0) return linalg::eigs(ta, crit, neig, pv, pf);
    if (form == 1) return linalg::eigs(parts(a), crit, neig, pv, pf);
    Fun<T> f = {ta, 0};
    return linalg::eigs(f, n, crit, neig, pv, pf);
  };
  e = run(&conv);
  label(conv ? "converged" : "not converged");
  if (e.rank() != 1 || e.size() != neig) FAIL(show(e.dimensions()) << " eigenvalues instead of " << neig);
  if (conv) {
    for (long k = 0; k < neig; ++k) {
      double best = 1e300;
      for (long i = 0; i < n; ++i) best = std::min(best, std::abs(cd(e[k]) - cd(a(i, i))));
      if (!(best <= 1e-9)) FAIL("reported as converged, but " << e[k] << " is not an eigenvalue");
    }
  } else {
    for (long k = 0; k < neig; ++k) CHECK(e[k] == T(0), "an eigenvalue " << e[k] << " comes with the report that there are none");
    must_refuse("eigenvalues that do not converge, without a flag", [&] { set_seed(1); run(0); });
  }
}
TEST(hard_R, 225, 2000) { hard<double>(S); }
TEST(hard_C, 225, 2000) { hard<cd>(S); }

// the solver driven step by step by its user
template <class T> struct Solver;
template <> struct Solver<double> { typedef linalg::RArpack type; };
template <> struct Solver<cd> { typedef linalg::CArpack type; };
template <class T> void driver(Src &S) {
  typedef typename Solver<T>::type A;
  Lcg g(S);
  set_seed((unsigned long)g.next());
  bool tight = S.coin(1, 6);
  long n = tight && S.coin() ? S.range(40, 60) : S.range(5, 20), neig = S.range(1, std::min(n / 3 + 1, 8L));
  int crit = (int)S.draw(4);
  std::vector<T> ev;
  for (long i = 0; i < n; ++i) ev.push_back(T((crit < 2 ? 0.3 : -0.15 * (double)n) + 0.3 * (double)i + 0.1 * g.u()));
  for (long i = n - 1; i > 0; --i) std::swap(ev[i], ev[g.next() % (i + 1)]);
  Arr<T> u = unitary<T>(S, g, n), a = mm(u, mm(diag_of(ev, n, n), adj(u)));
  std::vector<cd> all(ev.begin(), ev.end());
  std::sort(all.begin(), all.end(), [&](cd x, cd y) { return key(x, crit) > key(y, crit); });
  all.resize(neig);
  Tensor<T> ta = mk(a);
  bool pointers = S.coin(), start = S.coin(), vec = S.coin(), told = S.coin(1, 4);
  NOTE("driver " << tname<T>() << " n " << n << " neig " << neig << " criterion " << crit << (pointers ? " by pointers" : "") << (start ? " start" : "") << (tight ? " one iteration" : "") << " eigenvalues " << show(all));
  nontrivial();
  A d(n, (linalg::EigType)crit, neig);
  CHECK(d.get_status() == A::Initialized && d.get_vector_size() == (size_t)n, "a new solver has status " << d.get_status() << " and size " << d.get_vector_size());
  Arr<T> v0 = rnd_arr<T>(g, Dims{n});
  if (start) { Tensor<T> t = mk(v0); d.set_start_vector(t.begin_const()); if (S.coin(1, 4)) { d.set_random_start_vector(); start = false; } }
  double tol = S.coin() ? 0 : 1e-6;
  if (tol > 0 || S.coin()) d.set_tolerance(tol);
  if (tight) d.set_maxiter(1);
  if (S.coin(1, 60)) must_refuse("the vector of a solver that is not running", [&] { if (S.coin()) d.get_x(); else d.set_y(mk(v0)); });
  long calls = 0;
  typename A::Status st;
  while ((st = d.update()) < A::Finished) {
    CHECK(st == A::Running && d.get_status() == st, "status " << st << " while running");
    Tensor<T> x = d.get_x();
    if (calls == 0 && start) {
      cd dot = 0; double nv = 0, nx = 0;
      for (long i = 0; i < n; ++i) { dot += std::conj(cd(x[i])) * cd(v0.v[i]); nv += std::norm(v0.v[i]); nx += std::norm(x[i]); }
      if (!(std::abs(dot) / std::sqrt(nv * nx) > 1 - 1e-10)) FAIL("the first vector is not along the starting vector");
    }
    if (pointers) {
      T *px = d.get_x_vector(), *py = d.get_y_vector();
      for (long i = 0; i < n; ++i) CHECK(same_num(px[i], x[i]), "get_x() and get_x_vector() differ");
      for (long i = 0; i < n; ++i) { T s = T(0); for (long j = 0; j < n; ++j) s += a(i, j) * px[j]; py[i] = s; }
      Arr<T> y = ld(d.get_y());
      for (long i = 0; i < n; ++i) CHECK(same_num(py[i], y.v[i]), "get_y() and get_y_vector() differ");
    } else d.set_y(mmult(ta, x));
    if (calls == 0 && told) must_refuse("changing a running solver", [&] { int o = (int)S.draw(3); if (o == 0) d.set_tolerance(0.1); else if (o == 1) d.set_maxiter(5); else d.set_start_vector(v0.v.data()); });
    if (++calls > 100000) FAIL("the solver does not end");
  }
  if (tight && st == A::TooManyIterations) { label("too many iterations"); CHECK(!d.error_message().empty(), "no message"); return; }
  CHECK(st == A::Finished, "status " << st << " in the end: " << d.error_message());
  label(tight ? "finished at once" : "finished");
  Tensor<T> V, e;
  std::vector<T> buf(n * neig, T(0));
  if (vec && pointers) e = d.get_data(buf.data()); else e = d.get_data(vec ? &V : (Tensor<T> *)0);
  if (e.size() != neig) FAIL(e.size() << " eigenvalues instead of " << neig);
  double nrm = frob(a), t = std::max(1e-10, 100 * tol) * nrm;
  for (long k = 0; k < neig; ++k) {
    double best = 1e300;
    for (auto &x : all) best = std::min(best, std::abs(cd(e[k]) - x));
    if (!(best <= t)) FAIL("eigenvalues " << show(e) << " instead of " << show(all));
    for (long l = 0; l < k; ++l) if (std::abs(cd(e[k]) - cd(e[l])) < 0.05) FAIL("an eigenvalue comes twice: " << show(e));
  }
  if (vec) {
    Arr<T> v = pointers ? Arr<T>(Dims{n, neig}) : ld(V);
    if (pointers) v.v = buf;
    if (v.d != Dims({n, neig})) FAIL("vectors of dimensions " << show(v.d));
    Arr<T> r = mm(a, v);
    for (long k = 0; k < neig; ++k) {
      if (!(std::abs(colnorm(v, k) - 1) <= 1e-8 + 10 * tol)) FAIL("vector " << k << " has norm " << colnorm(v, k));
      for (long i = 0; i < n; ++i) r(i, k) -= v(i, k) * e[k];
      if (!(colnorm(r, k) <= t)) FAIL("|A*v-e*v| is " << colnorm(r, k) << " (allowed " << t << ") for vector " << k);
    }
  }
  CHECK(d.update() == A::Error, "a finished solver goes on");
}
TEST(driver_R, 15000, 150000) { driver<double>(S); }
TEST(driver_C, 15000, 150000) { driver<cd>(S); }
// a limit on the iterations is obeyed
template <class T> void limits(Src &S) {
  typedef typename Solver<T>::type A;
  Lcg g(S);
  set_seed((unsigned long)g.next());
  long n = S.range(40, 90), neig = S.range(1, 3), most = S.range(1, 8);
  std::vector<double> ev(n);
  double decades = S.elem({2.0, 6.0, 9.0});
  for (long i = 0; i < n; ++i) ev[i] = std::pow(10.0, -decades * (double)(n - 1 - i) / (double)(n - 1)) * (1 + 0.01 * g.u());
  A d(n, linalg::SmallestMagnitude, neig);
  if (S.coin(1, 3)) d.set_maxiter(most + 40);
  d.set_maxiter(most);
  NOTE("limit " << tname<T>() << " n " << n << " neig " << neig << " decades " << decades << " at most " << most << " iterations");
  nontrivial();
  long calls = 0;
  typename A::Status st;
  while ((st = d.update()) < A::Finished) {
    T *x = d.get_x_vector(), *y = d.get_y_vector();
    for (long i = 0; i < n; ++i) y[i] = x[i] * ev[i];
    if (++calls > (most + 2) * n) FAIL("more than " << (most + 2) * n << " products in at most " << most << " iterations");
  }
  label(st == A::Finished ? "converged within the limit" : "stopped at the limit");
  if (st == A::TooManyIterations) { CHECK(!d.error_message().empty(), "no message"); return; }
  CHECK(st == A::Finished, "status " << st << " in the end: " << d.error_message());
  Tensor<T> e = d.get_data((Tensor<T> *)0);
  for (long k = 0; k < neig; ++k) {
    double best = 1e300;
    for (double v : ev) best = std::min(best, std::abs(cd(e[k]) - v));
    if (!(best <= 1e-9)) FAIL("reported as finished, but " << e[k] << " is not an eigenvalue");
  }
}
TEST(limits_R, 1500, 10000) { limits<double>(S); }
TEST(limits_C, 1500, 10000) { limits<cd>(S); }
// memory: solvers driven to the end, abandoned on the way or never started
template <class T> void memory(Src &S) {
  typedef typename Solver<T>::type A;
  long n = S.range(1, 30), neig = n <= 4 ? S.range(1, n) : S.range(1, std::min(n - 2, 6L)), stop = S.coin() ? S.range(0, 12) : 1000000;
  int crit = (int)S.draw(4), form = (int)S.draw(4);
  bool vec = S.coin(), flag = S.coin();
  if (form == 3 && n <= 4) { n = 5; neig = std::min(neig, 3L); }
  Lcg g(S);
  Arr<T> a(Dims{n, n});
  for (long i = 0; i < n; ++i) a(i, i) = T(0.5 + 0.3 * (double)i + 0.1 * g.u());
  Tensor<T> ta = mk(a);
  Sparse<T> sa = parts(a);
  NOTE("memory " << tname<T>() << " n " << n << " neig " << neig << " criterion " << crit << " form " << form << " vectors " << vec << " stop " << stop);
  nontrivial();
  auto run = [&] {
    set_seed(5);
    Tensor<T> V, e;
    bool conv;
    if (form == 0) e = linalg::eigs(ta, crit, neig, vec ? &V : 0, flag ? &conv : 0);
    else if (form == 1) e = linalg::eigs(sa, crit, neig, vec ? &V : 0, flag ? &conv : 0);
    else if (form == 2) { Fun<T> f = {ta, 0}; e = linalg::eigs(f, n, crit, neig, vec ? &V : 0, flag ? &conv : 0); }
    else {
      A d(n, (linalg::EigType)crit, neig);
      for (long k = 0; k < stop && d.update() < A::Finished; ++k) d.set_y(mmult(ta, d.get_x()));
      if (d.get_status() == A::Finished) e = d.get_data(vec ? &V : (Tensor<T> *)0);
    }
  };
  run();
  size_t b1 = allocated_bytes();
  run();
  size_t b2 = allocated_bytes();
  run();
  size_t b3 = allocated_bytes();
  CHECK(!(b2 > b1 && b3 > b2), "memory grows by " << b2 - b1 << " and " << b3 - b2 << " bytes each time");
}
TEST(memory_R, 3000, 30000) { memory<double>(S); }
TEST(memory_C, 3000, 30000) { memory<cd>(S); }
template <class T> void sorting(Src &S) {
  long n = S.range(0, 12);
  int crit = (int)S.draw(6);
  Arr<cd> v = gen_arr<cd>(S, Dims{n}, S.coin() ? V_INT : V_REAL);
  NOTE("sort_values " << crit << " " << show(v));
  if (n > 1) nontrivial();
  Indices p = Solver<T>::type::sort_values(mk(v), (linalg::EigType)crit);
  if (p.size() != n) FAIL(p.size() << " positions of " << n << " values");
  std::vector<char> seen(n, 0);
  for (long i = 0; i < n; ++i) { CHECK(p[i] >= 0 && p[i] < n && !seen[p[i]], "not a permutation: " << show(p)); seen[p[i]] = 1; }
  for (long i = 1; i < n; ++i) CHECK(key(v.v[p[i - 1]], crit) >= key(v.v[p[i]], crit) - 1e-15 * std::abs(v.v[p[i]]), "not sorted by criterion " << crit << ": " << show(p) << " of " << show(v));
}
TEST(sorting_R, 15000, 100000) { sorting<double>(S); }
TEST(sorting_C, 15000, 100000) { sorting<cd>(S); }
TEST(eigs_R, 45000, 500000) { eigs_t<double>(S); }
TEST(eigs_C, 45000, 500000) { eigs_t<cd>(S); }
TEST(refuse, 1200, 8000) {
  long n = S.coin() ? S.range(5, 9) : S.range(1, 4);
  nontrivial();
  RTensor r = RTensor::ones(n, n), w = RTensor::ones(n, n + 1);
  CTensor c = CTensor::ones(n, n), z = CTensor::ones(n + 1, n);
  int o = (int)S.draw(16);
  NOTE("n " << n << " request " << o);
  switch (o) {
    case 0: must_refuse("no eigenvalues", [&] { linalg::eigs(r, 0, 0); }); break;
    case 1: must_refuse("more eigenvalues than rows", [&] { linalg::eigs(c, 0, n + 1); }); break;
    case 2: if (n <= 4) DISCARD(); must_refuse("all eigenvalues", [&] { linalg::eigs(r, 0, n); }); break;
    case 3: must_refuse("rectangular matrix", [&] { linalg::eigs(w, 0, 1); }); break;
    case 4: must_refuse("rectangular matrix", [&] { linalg::eigs(z, 0, 1); }); break;
    case 5: must_refuse("rectangular sparse matrix", [&] { linalg::eigs(RSparse(w), 0, 1); }); break;
    case 6: must_refuse("rectangular sparse matrix", [&] { linalg::eigs(CSparse(z), 0, 1); }); break;
    case 7: if (n <= 4) DISCARD(); must_refuse("largest imaginary part of a real matrix", [&] { linalg::eigs(r, 4, 1); }); break;
    case 8: if (n <= 4) DISCARD(); must_refuse("smallest imaginary part of a real matrix", [&] { linalg::eigs(r, 5, 1); }); break;
    case 9: {
      int crit = (int)S.range(6, 9), w = (int)S.draw(3);
      if (S.coin()) crit = 5 - crit;
      NOTE("criterion " << crit << " form " << w);
      must_refuse("unknown criterion", [&] { if (w == 0) linalg::eigs(c, crit, 1); else if (w == 1) linalg::eigs(r, crit, 1); else linalg::eigs(RSparse(r), crit, 1); });
      break;
    }
    case 10: must_refuse("no eigenvalues", [&] { linalg::eigs(c, 0, 0); }); break;
    case 11: must_refuse("more eigenvalues than rows", [&] { linalg::eigs(r, 0, n + 1); }); break;
    case 12: must_refuse("no eigenvalues of a sparse matrix", [&] { linalg::eigs(RSparse(r), 0, 0); }); break;
    case 13: must_refuse("more eigenvalues than rows of a sparse matrix", [&] { linalg::eigs(CSparse(c), 0, n + 1); }); break;
    case 14: must_refuse("no eigenvalues of a function", [&] { Fun<double> f = {r}; linalg::eigs(f, n, 0, 0, (RTensor *)0); }); break;
    default: must_refuse("more eigenvalues than rows of a function", [&] { Fun<cd> f = {c}; linalg::eigs(f, n, 0, n + 1, (CTensor *)0); }); break;
  }
}
