#include "la.h"
#include <tensor/linalg.h>
using namespace tensor;
const char *pbt::PROPERTY = "C18";
const char *pbt::RULE =
    "Matrices of 1-50 rows and columns: with known singular values (repeated, zero, spanning decades) between random, permutation or identity factors, small integers of "
    "low rank, zero matrices, and permuted block patterns with zero rows and columns for the block variant; all combinations of requested factors and economic or full form. "
    "Orthonormality, reconstruction, ordering and the known values are checked. Non-trivial: two or more rows and columns.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the matrix has at least one row and one column and finite elements"};

template <class T> void orthonormal_columns(const std::string &what, const Arr<T> &q) {
  Arr<T> e = sub(mm(adj(q), q), ident<T>(q.d[1]));
  double m = maxabs(e);
  if (!(m <= 30 * q.d[0] * EPS)) FAIL(what << ": not orthonormal, error " << m << " in " << show(q));
}
template <class T> struct Fn { typedef RTensor (*type)(Tensor<T>, Tensor<T> *, Tensor<T> *, bool); };

template <class T> void verify(Src &S, const std::string &what, typename Fn<T>::type f, const Arr<T> &a, const std::vector<double> *known) {
  long m = a.d[0], n = a.d[1], k = std::min(m, n);
  double nrm = frob(a), tol = 40 * (m + n) * EPS * nrm;
  Tensor<T> ta = mk(a), shared = ta;
  std::vector<double> first;
  int combos = S.coin() ? 8 : 3;
  for (int c = 0; c < combos; ++c) {
    int q = combos == 8 ? c : (int)S.draw(8);
    bool wu = q & 1, wv = q & 2, eco = q & 4;
    std::string w = what + (wu ? " U" : "") + (wv ? " VT" : "") + (eco ? " economic" : " full");
    Tensor<T> U, V;
    // outputs that already hold something else, or the input itself
    int pre = (int)S.draw(4);
    if (pre == 1) { U = Tensor<T>::ones(2, 3); V = U; }
    if (pre == 2) { U = ta; V = ta; }
    RTensor s = f(ta, wu ? &U : 0, wv ? &V : 0, eco);
    expect_eq(w + ": the matrix afterwards", ta, a);
    expect_eq(w + ": a copy of the matrix afterwards", shared, a);
    if (s.rank() != 1 || s.size() != k) FAIL(w << ": " << show(s.dimensions()) << " singular values");
    std::vector<double> sv(s.begin_const(), s.end_const());
    for (long i = 0; i < k; ++i) {
      if (!(sv[i] >= 0)) FAIL(w << ": singular value " << sv[i]);
      if (i && !(sv[i] <= sv[i - 1] * (1 + 8 * EPS)))   // LAPACK rescales: equal values may differ in the last bits
        FAIL(w << ": singular values not in non-increasing order " << show(sv));
      if (known && !(std::abs(sv[i] - (*known)[i]) <= tol)) FAIL(w << ": singular values " << show(sv) << " instead of " << show(*known));
      if (first.size() && !(std::abs(sv[i] - first[i]) <= tol)) FAIL(w << ": singular values " << show(sv) << " differ from " << show(first) << " found with other requests");
    }
    if (first.empty()) first = sv;
    Arr<T> u, v;
    if (wu) {
      u = ld(U);
      if (u.d != Dims({m, eco ? k : m})) FAIL(w << ": U of dimensions " << show(u.d));
      orthonormal_columns(w + " U", u);
    }
    if (wv) {
      v = ld(V);
      if (v.d != Dims({eco ? k : n, n})) FAIL(w << ": VT of dimensions " << show(v.d));
      orthonormal_columns(w + " V", adj(v));
    }
    if (wu && wv) {
      Arr<T> us(Dims{m, k}), vk(Dims{k, n});
      for (long j = 0; j < k; ++j) for (long i = 0; i < m; ++i) us(i, j) = u(i, j) * sv[j];
      for (long j = 0; j < n; ++j) for (long i = 0; i < k; ++i) vk(i, j) = v(i, j);
      double err = frob(sub(mm(us, vk), a));
      if (!(err <= tol)) FAIL(w << ": U*S*VT differs from the matrix by " << err << " (allowed " << tol << "): S " << show(sv) << " U " << show(u) << " VT " << show(v));
    } else if (wu) {   // |U^H A|: its rows have the singular values as norms
      Arr<T> r = mm(adj(u), a);
      for (long i = 0; i < k; ++i) {
        double s2 = 0;
        for (long j = 0; j < n; ++j) s2 += std::norm(r(i, j));
        if (!(std::abs(std::sqrt(s2) - sv[i]) <= tol)) FAIL(w << ": column " << i << " of U does not belong to singular value " << sv[i]);
      }
    } else if (wv) {
      Arr<T> r = mm(a, adj(v));
      for (long i = 0; i < k; ++i) if (!(std::abs(colnorm(r, i) - sv[i]) <= tol)) FAIL(w << ": row " << i << " of VT does not belong to singular value " << sv[i]);
    }
  }
}
template <class T> Arr<T> gen_matrix(Src &S, Lcg &g, std::vector<double> *known, bool *have) {
  long m = la_size(S), n = S.coin(1, 4) ? m : la_size(S);
  if (m * n > 1200) { m = std::min(m, 20L); n = std::min(n, 20L); }
  long k = std::min(m, n);
  *have = true;
  known->assign(k, 0.0);
  label(m == n ? "square" : m > n ? "tall" : "wide");
  switch (S.weighted({5, 2, 1, 1})) {
    case 0: {
      double dec = S.elem({0.0, 1.0, 6.0}), sc = S.elem({1.0, 1e-4, 1e7, 1e-16, 1e-100, 1e100});
      bool rep = S.coin(1, 3), zero = S.coin(1, 3);
      std::vector<T> st(k);
      for (long i = 0; i < k; ++i) {
        double x = sc * std::pow(10.0, -dec * g.u());
        if (rep && i && (g.next() & 1)) x = (*known)[i - 1];
        if (zero && g.next() % 3 == 0) x = 0;
        (*known)[i] = x;
        st[i] = T(x);
      }
      Arr<T> a = mm(unitary<T>(S, g, m), mm(diag_of(st, m, n), adj(unitary<T>(S, g, n))));
      std::sort(known->rbegin(), known->rend());
      label(zero ? "rank deficient" : rep ? "repeated" : "distinct");
      return a;
    }
    case 1: {
      *have = false;
      label("small integers");
      Arr<T> a(Dims{m, n});
      for (auto &x : a.v) x = rint_<T>(g, 2);
      return a;
    }
    case 2: label("zero matrix"); return Arr<T>(Dims{m, n});
    default: {
      label("rank one");
      Arr<T> x = rnd_arr<T>(g, Dims{m, 1}), y = rnd_arr<T>(g, Dims{1, n});
      (*known)[0] = frob(x) * frob(y);
      return mm(x, y);
    }
  }
}
template <class T> void svd_t(Src &S) {
  Lcg g(S);
  std::vector<double> known;
  bool have;
  Arr<T> a = gen_matrix<T>(S, g, &known, &have);
  NOTE("svd " << tname<T>() << " A " << show(a));
  if (a.d[0] > 1 && a.d[1] > 1) nontrivial();
  linalg::accurate_svd = S.coin(1, 4);
  typename Fn<T>::type f = &linalg::svd, h = &linalg::block_svd;
  verify<T>(S, "svd", f, a, have ? &known : 0);
  if (S.coin(1, 4)) verify<T>(S, "block_svd", h, a, have ? &known : 0);
  linalg::accurate_svd = false;
}
TEST(svd_R, 90000, 540000) { svd_t<double>(S); }
TEST(svd_C, 75000, 450000) { svd_t<cd>(S); }

template <class T> void block_t(Src &S) {
  Lcg g(S);
  std::vector<std::pair<long, long> > blocks;
  long nb = S.range(1, 5), m = 0, n = 0;
  bool squares = S.coin(2, 5);
  for (long b = 0; b < nb; ++b) {
    long r = S.coin(1, 6) ? 0 : S.coin(1, 10) ? S.range(3, 7) : S.range(1, 3), c = squares ? r : S.coin(1, 6) ? 0 : S.range(1, 3);
    blocks.push_back({r, c});
    m += r; n += c;
  }
  if (S.coin(1, 3)) m += S.range(0, 2);
  if (S.coin(1, 3)) n += S.range(0, 2);
  if (!m || !n) DISCARD();
  std::vector<long> p(m), q(n);
  for (long i = 0; i < m; ++i) p[i] = i;
  for (long i = 0; i < n; ++i) q[i] = i;
  if (S.coin(3, 4)) {
    for (long i = m - 1; i > 0; --i) std::swap(p[i], p[S.draw(i + 1)]);
    for (long i = n - 1; i > 0; --i) std::swap(q[i], q[S.draw(i + 1)]);
  }
  Arr<T> a(Dims{m, n});
  bool holes = S.coin(1, 3);
  double weak = S.coin(1, 4) ? 1e-9 : 1.0;
  long r0 = 0, c0 = 0;
  std::vector<double> known;
  for (auto &b : blocks) {
    // some blocks are weak or of low rank, and elements inside a block may vanish
    double sc = S.coin(1, 4) ? weak : 1.0;
    int kind = (int)S.draw(4);
    Arr<T> blk = kind == 2 && b.first && b.second ? mm(rnd_arr<T>(g, Dims{b.first, 1}), rnd_arr<T>(g, Dims{1, b.second})) : rnd_arr<T>(g, Dims{b.first, b.second});
    for (auto &x : blk.v) { if (kind == 1) x = T(1); if (kind == 3) x = rint_nz<T>(g, 1); x *= T(sc); if (holes && g.next() % 3 == 0) x = T(0); }
    for (long j = 0; j < b.second; ++j) for (long i = 0; i < b.first; ++i) a(p[r0 + i], q[c0 + j]) = blk(i, j);
    r0 += b.first; c0 += b.second;
  }
  // the pattern of zeros does not depend on the units of the matrix
  double unit = S.coin(1, 3) ? S.elem({1e-13, 1e-40, 1e-100, 1e9, 1e100}) : 1.0;
  if (unit != 1.0) label("tiny or large units");
  for (auto &x : a.v) x *= T(unit);
  NOTE("block_svd " << tname<T>() << " blocks " << nb << " A " << show(a));
  if (m > 1 && n > 1) nontrivial();
  label(squares ? "square blocks" : "rectangular blocks");
  label(m == n ? "square" : m > n ? "tall" : "wide");
  typename Fn<T>::type f = &linalg::svd, h = &linalg::block_svd;
  RTensor s = f(mk(a), 0, 0, false);
  known.assign(s.begin_const(), s.end_const());
  verify<T>(S, "block_svd", h, a, &known);
}
TEST(block_R, 120000, 720000) { block_t<double>(S); }
TEST(block_C, 90000, 540000) { block_t<cd>(S); }
