#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C11";
const char *pbt::RULE =
    "Random tensors of rank 1-6 with unequal dimensions (zero sizes included), every choice of indices (positive or negative), diagonal shifts of both signs up to "
    "beyond the edge, rectangular shapes; integer-valued elements so that every sum is exact, bitwise comparison with explicit multi-index definitions. "
    "Non-trivial: the result has two or more elements, or sums two or more.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "where the two traced indices differ in size the trace runs over their common positions", "taking a diagonal needs two different indices",
    "a mean over a non-integer-valued tensor is compared within rounding error; the mean over an empty index is NaN (0/0)"};

template <class T> void touched(Tensor<T> r) { if (r.size()) r.at(r.size() - 1) = T(-77.0); }
template <class T> struct Keep {
  Arr<T> a; const Tensor<T> &t; Tensor<T> copy;
  Keep(const Arr<T> &aa, const Tensor<T> &tt) : a(aa), t(tt), copy(tt) {}
  void check() { expect_eq("the argument afterwards", t, a); expect_eq("a copy of the argument afterwards", copy, a); }
};
inline Dims gen_d(Src &S, long rmin, long rmax) { return rmax == 6 && rmin < 6 && S.coin(1, 60) ? gen_deep(S, 7, 11) : S.coin(1, 3000) ? gen_huge(S, rmin, rmax) : S.coin(1, 40) ? gen_dims(S, rmin, std::max(rmin, std::min(rmax, 3L)), 50, false, 4000) : gen_dims(S, rmin, rmax, 6, true, 200); }
template <class T> Arr<T> gen_any(Src &S, const Dims &d) { return S.coin() ? tag_arr<T>(d) : gen_arr<T>(S, d, V_INT); }
inline long neg(Src &S, long i, long r) { return S.coin(1, 3) ? i - r : i; }

template <class T> void t_diag(Src &S) {
  long n = S.coin(1, 20) ? 0 : S.coin(1, 30) ? S.range(1, 60) : S.range(1, 6);
  int which = (int)S.sint(5);
  Arr<T> v = S.coin() ? tag_arr<T>(Dims{n}) : gen_arr<T>(S, Dims{n}, V_SPECIAL);
  Tensor<T> t = mk(v);
  Keep<T> keep(v, t);
  bool rect = S.coin();
  long rows, cols, r0 = which < 0 ? -which : 0, c0 = which > 0 ? which : 0;
  if (!rect) rows = cols = n + std::abs(which);
  else { rows = n + r0; cols = n + c0; if (S.coin()) rows += S.range(0, 4); else cols += S.range(0, 4); }
  NOTE("diag " << tname<T>() << " " << show(v) << " which " << which << " into " << rows << "x" << cols << (rect ? "" : " (default)"));
  label(which == 0 ? "diag main" : which > 0 ? "diag upper" : "diag lower");
  if (n > 1) nontrivial();
  Arr<T> want(Dims{rows, cols});
  for (long i = 0; i < n; ++i) want(r0 + i, c0 + i) = v.v[i];
  Tensor<T> out = rect ? diag(t, which, (int)rows, (int)cols) : which == 0 && S.coin() ? diag(t) : diag(t, which);
  expect_eq("diag", out, want);
  keep.check();
  if (rows > r0 && cols > c0) {
    expect_eq("take_diag(diag(v))", take_diag(out, which), v);
    expect_eq("diag(v).diag()", out.diag(which), v);
    if (!which) expect_eq("take_diag(diag(v)) default", take_diag(out), v);
  }
  if (S.coin(1, 100)) {
    int w2 = (int)S.sint(6);
    long rr = S.range(0, 8), cc = S.range(0, 8), a0 = w2 < 0 ? -w2 : 0, b0 = w2 > 0 ? w2 : 0, l = std::min(rr - a0, cc - b0);
    if (l != n) must_refuse("diag of " + std::to_string(n) + " elements, shift " + std::to_string(w2) + " into " + std::to_string(rr) + "x" + std::to_string(cc), [&] { diag(t, w2, (int)rr, (int)cc); });
  }
}
TEST(diag_R, 100000, 1500000) { t_diag<double>(S); }
TEST(diag_C, 100000, 1500000) { t_diag<cd>(S); }

template <class T> void t_take(Src &S) {
  Dims d = gen_d(S, 2, 6);
  long r = d.size(), i = S.draw(r), j = (i + 1 + S.draw(r - 1)) % r;
  bool defaults = S.coin(1, 6);
  if (defaults) { i = 0; j = r - 1; }
  long di = d[i], dj = d[j];
  int which = (int)(S.coin(1, 3) ? 0 : S.range(-di - 1, dj + 1));
  Arr<T> a = gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  int pi = (int)neg(S, i, r), pj = (int)neg(S, j, r);
  NOTE("take_diag " << tname<T>() << " " << show(a) << " which " << which << " indices " << pi << "," << pj);
  auto run = [&]() -> Tensor<T> { return defaults ? (S.coin() ? take_diag(t, which) : t.diag(which)) : S.coin() ? take_diag(t, which, pi, pj) : t.diag(which, pi, pj); };
  if (which <= -di || which >= dj) {
    label("take_diag beyond the edge");
    if (S.coin(1, 25) && !(di == 0 || dj == 0)) must_refuse("take_diag with shift " + std::to_string(which), [&] { run(); });
    return;
  }
  label(i < j ? "take_diag ascending" : "take_diag descending");
  label("take_diag rank " + std::to_string(r) + (which ? " shifted" : ""));
  // element l along the diagonal: i at r0+l, j at c0+l; it takes the place of the lower index
  long r0 = which < 0 ? -which : 0, c0 = which > 0 ? which : 0, len = std::max(0L, std::min(di - r0, dj - c0));
  long lo = std::min(i, j), hi = std::max(i, j);
  Dims e = d;
  e[lo] = len;
  e.erase(e.begin() + hi);
  Arr<T> want(e);
  if (want.size()) {
    Dims k(e.size(), 0);
    do {
      Dims q = k;
      q.insert(q.begin() + hi, 0);
      q[i] = r0 + k[lo];
      q[j] = c0 + k[lo];
      want.v[offset(k, e)] = a.v[offset(q, d)];
    } while (next_index(k, e));
  }
  if (want.size() > 1) nontrivial();
  Tensor<T> out = run();
  expect_eq("take_diag", out, want);
  touched(out);
  keep.check();
}
TEST(take_diag_R, 150000, 2500000) { t_take<double>(S); }
TEST(take_diag_C, 150000, 2500000) { t_take<cd>(S); }

template <class T> void t_trace(Src &S) {
  bool matrix = S.coin(1, 4);
  Dims d = !matrix && S.coin(1, 60) ? gen_deep(S, 7, 11) : gen_dims(S, 2, matrix ? 2 : 6, S.coin(1, 40) ? 40 : 6, true, 200);
  long r = d.size(), i = S.draw(r), j = (i + 1 + S.draw(r - 1)) % r;
  if (S.coin(2, 3)) d[j] = d[i];
  Arr<T> a = gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  long len = std::min(d[i], d[j]);
  if (matrix) {
    NOTE("matrix trace " << tname<T>() << " " << show(a));
    label("trace of a matrix");
    T want(0);
    for (long l = 0; l < len; ++l) want += a(l, l);
    T got = trace(t);
    if (len > 1) nontrivial();
    CHECK(same_num(got, want), "trace is " << got << " instead of " << want);
    keep.check();
    return;
  }
  long pi = neg(S, i, r), pj = neg(S, j, r);
  NOTE("trace " << tname<T>() << " " << show(a) << " over " << pi << "," << pj);
  label("trace rank " + std::to_string(r) + (d[i] == d[j] ? "" : " unequal"));
  long lo = std::min(i, j), hi = std::max(i, j);
  Dims e = d;
  e.erase(e.begin() + hi);
  e.erase(e.begin() + lo);
  if (e.empty()) e.push_back(1);
  Arr<T> want(e);
  if (want.size()) {
    Dims k(e.size(), 0);
    do
      for (long l = 0; l < len; ++l) {
        Dims q = k;
        if (r == 2) q = Dims{l, l};
        else { q.insert(q.begin() + lo, l); q.insert(q.begin() + hi, l); }
        want.v[offset(k, e)] += a.v[offset(q, d)];
      }
    while (next_index(k, e));
  }
  if (want.size() > 1 && len > 1) nontrivial();
  Tensor<T> out = trace(t, pi, pj);
  expect_eq("trace", out, want, NUM);
  expect_eq("trace with indices exchanged", trace(t, pj, pi), want, NUM);
  keep.check();
  if (S.coin(1, 300)) {
    must_refuse("trace over twice the same index", [&] { trace(t, pi, i); });
    must_refuse("trace over an index out of range", [&] { trace(t, S.coin() ? r : -r - 1, j); });
  }
}
TEST(trace_R, 120000, 2000000) { t_trace<double>(S); }
TEST(trace_C, 120000, 2000000) { t_trace<cd>(S); }

template <class T, class U> void t_scale(Src &S) {
  Dims d = gen_d(S, 1, 6);
  long r = d.size(), i = S.draw(r);
  bool special = S.coin(1, 4) && sizeof(T) == 8;
  Arr<T> a = special ? gen_arr<T>(S, d, V_SPECIAL) : gen_any<T>(S, d);
  Arr<U> v = gen_arr<U>(S, Dims{d[i]}, special ? V_SPECIAL : V_INT);
  Tensor<T> t = mk(a);
  Tensor<U> s = mk(v);
  Keep<T> keep(a, t);
  Keep<U> keepv(v, s);
  int pi = (int)neg(S, i, r);
  NOTE("scale " << tname<T>() << tname<U>() << " " << show(a) << " index " << pi << " by " << show(v));
  label("scale rank " + std::to_string(r) + " index " + (i == 0 ? "first" : i == r - 1 ? "last" : "middle"));
  if (a.size() > 1) nontrivial();
  Arr<T> want = a;
  if (a.size()) {
    Dims k(r, 0);
    do want.v[offset(k, d)] = a.v[offset(k, d)] * v.v[k[i]]; while (next_index(k, d));
  }
  Tensor<T> out = scale(t, pi, s);
  expect_eq("scale", out, want, NUM);
  touched(out);
  keep.check();
  keepv.check();
  Tensor<T> u = t;
  scale_inplace(u, pi, s);
  expect_eq("scale_inplace", u, want, NUM);
  keep.check();
  keepv.check();
  if (S.coin(1, 150)) {
    Dims w = gen_dims(S, 1, 1, 8, true);
    if (w[0] != d[i]) {
      Tensor<U> b = mk(tag_arr<U>(w));
      must_refuse("scale by a vector of " + std::to_string(w[0]), [&] { scale(t, pi, b); });
      must_refuse("scale_inplace by a vector of " + std::to_string(w[0]), [&] { scale_inplace(u, pi, b); });
    }
  }
}
TEST(scale_RR, 100000, 1500000) { t_scale<double, double>(S); }
TEST(scale_CC, 100000, 1500000) { t_scale<cd, cd>(S); }
TEST(scale_CR, 100000, 1500000) { t_scale<cd, double>(S); }

inline double den(double x) { return std::abs(x); }
inline double den(cd x) { return std::abs(x); }
template <class T> void t_mean(Src &S) {
  Dims d = gen_d(S, 1, 6);
  long r = d.size(), i = S.draw(r);
  bool real = S.coin(1, 3);
  Arr<T> a = real ? gen_arr<T>(S, d, V_REAL) : gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  int pi = (int)neg(S, i, r);
  NOTE("mean " << tname<T>() << " " << show(a) << " over " << pi);
  label("mean rank " + std::to_string(r) + " index " + (i == 0 ? "first" : i == r - 1 ? "last" : "middle"));
  Dims e = d;
  e.erase(e.begin() + i);
  if (e.empty()) e.push_back(1);
  Arr<T> want(e);
  std::vector<double> bound(want.v.size(), 0.0);
  if (want.size()) {
    Dims k(e.size(), 0);
    do {
      T s(0);
      double m = 0;
      for (long l = 0; l < d[i]; ++l) {
        Dims q = k;
        if (r == 1) q = Dims{l};
        else q.insert(q.begin() + i, l);
        T x = a.v[offset(q, d)];
        s += x;
        m += den(x);
      }
      want.v[offset(k, e)] = s / T((double)d[i]);
      bound[offset(k, e)] = 4e-16 * (d[i] + 4) * m / std::max(1L, d[i]);
    } while (next_index(k, e));
  }
  if (d[i] > 1) nontrivial();
  Tensor<T> out = mean(t, pi);
  if (d[i] == 0) {
    for (auto &x : ld(out).v) CHECK(std::isnan(std::abs(x)), "the mean over an empty index is " << x);
    CHECK(dims_of(out.dimensions()) == e, "mean has dimensions " << show(out.dimensions()));
  } else
    expect_close("mean", ld(out), want, bound);
  keep.check();
}
TEST(mean_R, 100000, 1500000) { t_mean<double>(S); }
TEST(mean_C, 100000, 1500000) { t_mean<cd>(S); }
// an index of many values, not a round number of them
template <class T> void long_mean(Src &S) {
  long n = S.elem({(1L << 24) + 1, (1L << 24) + 3, 20000001L}), o = S.coin() ? 1 : 2;
  bool first = S.coin();
  NOTE("mean over " << n << " values, " << o << " times, " << (first ? "first" : "last") << " index");
  label("long mean");
  nontrivial();
  Tensor<T> t = Tensor<T>::zeros(ix(first ? Dims{n, o} : Dims{o, n}));
  T *p = t.begin();
  double sum[2] = {0, 0};
  for (long k = 0; k < n; ++k) for (long j = 0; j < o; ++j) { double x = (double)((k * 7 + j) % 16); p[first ? k + n * j : j + o * k] = T(x); sum[j] += x; }   // exact sums
  Tensor<T> m = mean(t, first ? 0 : 1);
  CHECK(m.size() == o, "the mean has " << m.size() << " elements");
  for (long j = 0; j < o; ++j) { double w = sum[j] / (double)n; CHECK(std::abs(m[j] - T(w)) <= 4e-16 * w, "the mean is " << m[j] << " instead of " << w); }
}
TEST(long_mean_R, 3, 12) { long_mean<double>(S); }
TEST(long_mean_C, 2, 8) { long_mean<cd>(S); }
