#include "la.h"
#include <tensor/linalg.h>
using namespace tensor;
const char *pbt::PROPERTY = "C19";
const char *pbt::RULE =
    "Square matrices of 1-50 rows: normal ones with a known spectrum (real values, conjugate pairs in any position, repeated, zero), triangular, companion, permutation, "
    "integer and general random ones, and symmetric or Hermitian ones with a known spectrum; every combination of requested vectors. Eigenvalue equations are checked by "
    "residual, normalisation by norm, the spectrum against the known one or the traces of A and A*A. Non-trivial: two or more rows.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the matrix has at least one row and finite elements", "eigenvectors have unit Euclidean norm, as LAPACK documents"};

// the two lists are equal as multisets within tol
template <class V> bool match(std::vector<V> a, std::vector<V> b, double tol) {
  for (auto &x : a) {
    size_t best = 0;
    double d = 1e300;
    for (size_t j = 0; j < b.size(); ++j) if (std::abs(x - b[j]) < d) { d = std::abs(x - b[j]); best = j; }
    if (!(d <= tol)) return false;
    b.erase(b.begin() + best);
  }
  return b.empty();
}
template <class T> Arr<T> gen_square(Src &S, Lcg &g, std::vector<cd> *known);
// known: the spectrum when the matrix is normal
template <> Arr<cd> gen_square<cd>(Src &S, Lcg &g, std::vector<cd> *known) {
  long n = la_size(S);
  Arr<cd> a(Dims{n, n});
  switch (S.weighted({5, 2, 1, 2})) {
    case 0: {
      bool rep = S.coin(1, 4), zero = S.coin(1, 4);
      for (long i = 0; i < n; ++i) {
        cd x = rnd<cd>(g) * S.elem({1.0, 1.0, 100.0});
        if (rep && i && (g.next() & 1)) x = (*known)[i - 1];
        if (zero && g.next() % 3 == 0) x = 0;
        known->push_back(x);
      }
      label("normal");
      Arr<cd> u = unitary<cd>(S, g, n);
      return mm(u, mm(diag_of(*known, n, n), adj(u)));
    }
    case 1: label("random"); return rnd_arr<cd>(g, Dims{n, n});
    case 2: label("triangular"); for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) if (i <= j) a(i, j) = rnd<cd>(g); return a;
    default: label("integers"); for (auto &x : a.v) x = cd((double)(long)(g.next() % 5) - 2.0, (double)(long)(g.next() % 5) - 2.0); return a;
  }
}
template <> Arr<double> gen_square<double>(Src &S, Lcg &g, std::vector<cd> *known) {
  long n = la_size(S);
  Arr<double> a(Dims{n, n});
  switch (S.weighted({6, 2, 1, 2, 1})) {
    case 0: {   // blocks of one real value or a conjugate pair, in any order
      double sc = S.elem({1.0, 1.0, 100.0});
      bool rep = S.coin(1, 4);
      for (long i = 0; i < n;) {
        if (i + 1 < n && S.coin()) {
          double re = S.coin(1, 4) ? 0 : sc * g.s1(), im = sc * (0.1 + g.u());
          if (rep && i > 1 && (*known)[i - 1].imag() != 0) { re = (*known)[i - 1].real(); im = std::abs((*known)[i - 1].imag()); }
          a(i, i) = re; a(i + 1, i + 1) = re; a(i, i + 1) = im; a(i + 1, i) = -im;
          known->push_back(cd(re, im)); known->push_back(cd(re, -im));
          i += 2;
        } else {
          double x = S.coin(1, 5) ? 0 : sc * g.s1();
          a(i, i) = x;
          known->push_back(x);
          ++i;
        }
      }
      label("normal");
      Arr<double> u = unitary<double>(S, g, n);
      return mm(u, mm(a, adj(u)));
    }
    case 1: label("random"); return rnd_arr<double>(g, Dims{n, n});
    case 2: label("triangular"); for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) if (i <= j) a(i, j) = rnd<double>(g); return a;
    case 3: label("integers"); for (auto &x : a.v) x = (double)(long)(g.next() % 5) - 2.0; return a;
    default: label("companion"); for (long i = 1; i < n; ++i) a(i, i - 1) = 1; for (long i = 0; i < n; ++i) a(i, n - 1) = (double)(long)(g.next() % 7) - 3.0; return a;
  }
}
inline Arr<cd> vectors(const std::string &what, const CTensor &t, long n) {
  Arr<cd> r = ld(t);
  if (r.d != Dims({n, n})) FAIL(what << ": vectors of dimensions " << show(r.d));
  for (long j = 0; j < n; ++j) if (!(std::abs(colnorm(r, j) - 1) <= 50 * n * EPS)) FAIL(what << ": vector " << j << " has norm " << colnorm(r, j));
  return r;
}
template <class T> void eig_t(Src &S) {
  Lcg g(S);
  std::vector<cd> known;
  Arr<T> a = gen_square<T>(S, g, &known);
  long n = a.d[0];
  Arr<cd> ca = cplx(a), a2 = mm(ca, ca);
  double nrm = frob(a), tol = 60 * n * EPS * nrm;
  Tensor<T> ta = mk(a), shared = ta;
  NOTE("eig " << tname<T>() << " A " << show(a) << " known " << show(known));
  if (n > 1) nontrivial();
  cd t1 = 0, t2 = 0;
  for (long i = 0; i < n; ++i) { t1 += ca(i, i); t2 += a2(i, i); }
  std::vector<cd> first;
  for (int q = 0; q < 4; ++q) {
    bool wr = q & 1, wl = q & 2;
    std::string w = std::string("eig") + (wr ? " right" : "") + (wl ? " left" : "");
    CTensor R, L;
    if (S.coin(1, 4)) { R = CTensor::ones(2, 3); L = R; }
    CTensor d = wr || wl ? linalg::eig(ta, wr ? &R : 0, wl ? &L : 0) : linalg::eig(ta);
    expect_eq(w + ": the matrix afterwards", ta, a);
    expect_eq(w + ": a copy of the matrix afterwards", shared, a);
    if (d.rank() != 1 || d.size() != n) FAIL(w << ": " << show(d.dimensions()) << " eigenvalues");
    std::vector<cd> e(d.begin_const(), d.end_const());
    cd s1 = 0, s2 = 0;
    for (auto &x : e) { s1 += x; s2 += x * x; }
    if (!(std::abs(s1 - t1) <= n * tol)) FAIL(w << ": the eigenvalues " << show(e) << " add up to " << s1 << " while the trace is " << t1);
    if (!(std::abs(s2 - t2) <= 4 * n * tol * nrm)) FAIL(w << ": the squared eigenvalues " << show(e) << " add up to " << s2 << " while the trace of A*A is " << t2);
    if (known.size() && !match(e, known, 4 * tol)) FAIL(w << ": eigenvalues " << show(e) << " instead of " << show(known));
    if (known.size() && first.size() && !match(e, first, 4 * tol)) FAIL(w << ": eigenvalues " << show(e) << " differ from " << show(first) << " found with other requests");
    if (first.empty()) first = e;
    if (std::is_same<T, double>::value)
      for (auto &x : e) if (x.imag() != 0) {   // conjugates appear in pairs
        long c = 0;
        for (auto &y : e) c += (y == std::conj(x)) - (y == x);
        if (c) FAIL(w << ": eigenvalue " << x << " of a real matrix without its conjugate in " << show(e));
      }
    if (wr) {
      Arr<cd> r = vectors(w, R, n), ar = mm(ca, r);
      for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) ar(i, j) -= r(i, j) * e[j];
      for (long j = 0; j < n; ++j) if (!(colnorm(ar, j) <= tol)) FAIL(w << ": |A*r-e*r| is " << colnorm(ar, j) << " (allowed " << tol << ") for eigenvalue " << j << " of " << show(e) << " R " << show(r));
    }
    if (wl) {
      Arr<cd> l = vectors(w, L, n), la = mm(adj(ca), l);   // A^H l = conj(e) l
      for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) la(i, j) -= l(i, j) * std::conj(e[j]);
      for (long j = 0; j < n; ++j) if (!(colnorm(la, j) <= tol)) FAIL(w << ": |l^H*A-e*l^H| is " << colnorm(la, j) << " (allowed " << tol << ") for eigenvalue " << j << " of " << show(e) << " L " << show(l));
    }
  }
  if (S.coin(1, 300)) {
    Tensor<T> w = mk(Arr<T>(Dims{n, n + 1}));
    must_refuse("eig of a rectangular matrix", [&] { linalg::eig(w); });
    must_refuse("eig_sym of a rectangular matrix", [&] { linalg::eig_sym(w); });
  }
}
TEST(eig_R, 200000, 1200000) { eig_t<double>(S); }
TEST(eig_C, 125000, 750000) { eig_t<cd>(S); }

template <class T> void sym_t(Src &S) {
  Lcg g(S);
  long n = la_size(S);
  Arr<T> a;
  std::vector<double> known;
  int kind = (int)S.weighted({5, 1, 1});
  if (kind == 0) {
    bool rep = S.coin(1, 3), zero = S.coin(1, 4);
    double sc = S.elem({1.0, 1e-4, 1e6});
    std::vector<T> dv;
    for (long i = 0; i < n; ++i) {
      double x = sc * g.s1();
      if (rep && i && (g.next() & 1)) x = known[i - 1];
      if (zero && g.next() % 3 == 0) x = 0;
      known.push_back(x); dv.push_back(T(x));
    }
    Arr<T> u = unitary<T>(S, g, n);
    a = mm(u, mm(diag_of(dv, n, n), adj(u)));
  } else {
    a = Arr<T>(Dims{n, n});
    for (auto &x : a.v) x = kind == 1 ? rnd<T>(g) : T((double)(long)(g.next() % 5) - 2.0);
  }
  for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) {
    T x = (a(i, j) + cj(a(j, i))) * 0.5;
    a(i, j) = x; a(j, i) = cj(x);
    if (i == j) a(i, j) = T(std::real(x));
  }
  double nrm = frob(a), tol = 60 * n * EPS * nrm;
  Tensor<T> ta = mk(a), shared = ta;
  NOTE("eig_sym " << tname<T>() << " A " << show(a) << " known " << show(known));
  if (n > 1) nontrivial();
  label(kind == 0 ? "known spectrum" : kind == 1 ? "random" : "integers");
  std::sort(known.begin(), known.end());
  Tensor<T> V;
  if (S.coin(1, 4)) V = S.coin() ? ta : Tensor<T>(Tensor<T>::ones(2, 3));
  RTensor s0 = linalg::eig_sym(ta), s = linalg::eig_sym(ta, &V);
  expect_eq("the matrix afterwards", ta, a);
  expect_eq("a copy of the matrix afterwards", shared, a);
  if (s.rank() != 1 || s.size() != n || s0.size() != n) FAIL(show(s.dimensions()) << " eigenvalues");
  std::vector<double> e(s.begin_const(), s.end_const());
  for (long i = 0; i < n; ++i) {
    if (i && !(e[i] >= e[i - 1] - 8 * EPS * nrm)) FAIL("eigenvalues not in non-decreasing order: " << show(e));
    if (i && !(s0[i] >= s0[i - 1] - 8 * EPS * nrm)) FAIL("eigenvalues (no vectors) not in non-decreasing order: " << show(s0));
    if (!(std::abs(e[i] - s0[i]) <= tol)) FAIL("eigenvalues with and without vectors differ: " << show(e) << " and " << show(s0));
    if (known.size() && !(std::abs(e[i] - known[i]) <= tol)) FAIL("eigenvalues " << show(e) << " instead of " << show(known));
  }
  Arr<T> v = ld(V);
  if (v.d != Dims({n, n})) FAIL("vectors of dimensions " << show(v.d));
  double o = maxabs(sub(mm(adj(v), v), ident<T>(n)));
  if (!(o <= 50 * n * EPS)) FAIL("eigenvectors not orthonormal, error " << o << ": " << show(v));
  Arr<T> vd = v;
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) vd(i, j) *= e[j];
  double err = frob(sub(mm(vd, adj(v)), a));
  if (!(err <= tol)) FAIL("V*D*V^H differs from the matrix by " << err << " (allowed " << tol << ") D " << show(e) << " V " << show(v));
}
TEST(sym_R, 200000, 1200000) { sym_t<double>(S); }
TEST(sym_C, 150000, 900000) { sym_t<cd>(S); }
