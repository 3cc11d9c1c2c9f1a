#include "sp.h"
using namespace tensor;
const char *pbt::PROPERTY = "C16";
const char *pbt::RULE =
    "Random pairs of sparse matrices (0-30 rows and columns; disjoint, nested, equal and cancelling patterns, empty rows) and dense tensors of rank 1-5, real, complex and "
    "mixed; every operation is compared with a dense model and the compressed form of the result is read directly. Integer values exactly, others within the error bound of "
    "an inner product. Matrices of up to 2^44 columns or 2^17 rows with few entries, compared as coordinate maps. Non-trivial: both operands have two or more non-zero elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"values and scalars are finite and divisors non-zero (a zero that is not stored cannot give NaN)", "multiplying by the scalar zero may keep stored zeros"};

template <class A, class B> struct Res { typedef cd type; };
template <> struct Res<double, double> { typedef double type; };
template <class T> long nnz(const Arr<T> &a) { long n = 0; for (auto &x : a.v) n += !(x == T(0)); return n; }
template <class T> T to(double x) { return T(x); }
inline cd mulz(cd x, cd y) { return cd(x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real()); }
inline double mulz(double x, double y) { return x * y; }

// second operand related to the first: same pattern, cancelling, disjoint, nested or unrelated
template <class A, class B> Arr<B> related(Src &S, const Arr<A> &a, VKind k) {
  int rel = (int)S.draw(5);
  label(std::vector<std::string>{"unrelated", "same pattern", "cancelling", "disjoint", "nested"}[rel]);
  Arr<B> b = gen_sparse<B>(S, a.d[0], a.d[1], k);
  for (size_t i = 0; i < b.v.size(); ++i) {
    bool z = a.v[i] == A(0);
    double x = std::real(cd(a.v[i]));
    if (rel == 1) b.v[i] = z ? B(0) : gen_val<B>(S, k);
    if (rel == 2 && !z && S.coin(2, 3)) b.v[i] = B(S.coin() ? x : -x);
    if (rel == 3 && !z) b.v[i] = B(0);
    if (rel == 4 && z) b.v[i] = B(0);
  }
  return b;
}
template <class A, class B> void binop(Src &S) {
  typedef typename Res<A, B>::type R;
  long r = sp_dim(S), c = sp_dim(S);
  VKind k = S.coin(2, 3) ? V_INT : V_REAL;
  Arr<A> a = gen_sparse<A>(S, r, c, k);
  Arr<B> b = related<A, B>(S, a, k);
  if (k == V_REAL && S.coin(1, 4)) {   // tiny operands: sums and differences are exact down to the smallest subnormal
    label("tiny values");
    for (size_t i = 0; i < a.v.size(); ++i) {
      static const double tiny[] = {5e-324, 1e-310, 2.2250738585072014e-308, 3e-308, 1e-300, 1e-20};
      if (!(a.v[i] == A(0))) a.v[i] = A(tiny[S.draw(6)] * S.range(-4, 4));
      if (!(b.v[i] == B(0))) b.v[i] = B(tiny[S.draw(6)] * S.range(-4, 4));
      if (!(a.v[i] == A(0)) && !(b.v[i] == B(0)) && S.coin()) b.v[i] = B(std::real(cd(a.v[i])) + (S.coin() ? 5e-324 : 1e-310));
    }
  }
  Sparse<A> sa = mksp(S, a);
  Sparse<B> sb = mksp(S, b);
  KeepSp<A> ka(sa);
  KeepSp<B> kb(sb);
  NOTE(tname<A>() << tname<B>() << " A " << show(a) << " B " << show(b));
  if (nnz(a) > 1 && nnz(b) > 1) nontrivial();
  Arr<R> p(a.d), m(a.d), t(a.d);
  for (size_t i = 0; i < a.v.size(); ++i) { R x = a.v[i], y = b.v[i]; p.v[i] = x + y; m.v[i] = x - y; t.v[i] = mulz(x, y); }
  expect_sp("A+B", Sparse<R>(sa + sb), p, NUM, true);
  expect_sp("A-B", Sparse<R>(sa - sb), m, NUM, true);
  Sparse<R> prod(sa * sb);
  well_formed("A*B", prod, true);
  std::vector<double> bound;
  for (size_t i = 0; i < a.v.size(); ++i) bound.push_back(k == V_INT ? 0 : 4e-16 * std::abs(a.v[i]) * std::abs(b.v[i]) + 1e-323);
  expect_close("A*B", ld(prod), t, bound);
  ka.check("A");
  kb.check("B");
  if (S.coin(1, 150)) {
    Dims d = {sp_dim(S), sp_dim(S)};
    if (d != a.d) {
      Sparse<B> w = mksp(S, gen_sparse<B>(S, d[0], d[1], V_INT));
      int o = (int)S.draw(3);
      must_refuse("an operation of " + show(a.d) + " with " + show(d), [&] { if (o == 0) sa + w; else if (o == 1) sa - w; else sa * w; });
    }
  }
}
TEST(binop_RR, 240000, 2000000) { binop<double, double>(S); }
TEST(binop_CC, 240000, 2000000) { binop<cd, cd>(S); }
TEST(binop_RC, 200000, 1500000) { binop<double, cd>(S); }
TEST(binop_CR, 200000, 1500000) { binop<cd, double>(S); }

template <class A, class B> void scalar(Src &S) {
  typedef typename Res<A, B>::type R;
  VKind k = S.coin() ? V_INT : V_REAL;
  Arr<A> a = gen_sparse<A>(S, sp_dim(S), sp_dim(S), k);
  B x = gen_val<B>(S, k);
  Sparse<A> s = mksp(S, a);
  KeepSp<A> keep(s);
  NOTE("scalar " << tname<A>() << tname<B>() << " " << show(a) << " and " << x);
  if (nnz(a) > 1) nontrivial();
  Arr<R> t(a.d), q(a.d), n(a.d);
  std::vector<double> bt, bq;
  for (size_t i = 0; i < a.v.size(); ++i) {
    R u = a.v[i], w = x;
    t.v[i] = mulz(u, w);
    bt.push_back(4e-16 * std::abs(u) * std::abs(w));
    if (!(x == B(0))) q.v[i] = u / w;
    bq.push_back(!(x == B(0)) ? 16e-16 * std::abs(q.v[i]) : 0);
  }
  Sparse<R> l(s * x), r(x * s);
  well_formed("A*x", l);
  expect_close("A*x", ld(l), t, bt);
  well_formed("x*A", r);
  expect_close("x*A", ld(r), t, bt);
  if (!(x == B(0))) {
    Sparse<R> d(s / x);
    well_formed("A/x", d);
    expect_close("A/x", ld(d), q, bq);
  }
  Arr<A> neg = a;
  for (auto &y : neg.v) y = -y;
  expect_sp("-A", Sparse<A>(-s), neg);
  keep.check("A");
}
TEST(scalar_RR, 160000, 1200000) { scalar<double, double>(S); }
TEST(scalar_CC, 160000, 1200000) { scalar<cd, cd>(S); }
TEST(scalar_RC, 160000, 1200000) { scalar<double, cd>(S); }
TEST(scalar_CR, 160000, 1200000) { scalar<cd, double>(S); }

template <class T> void products(Src &S) {
  VKind k = S.coin(2, 3) ? V_INT : V_REAL;
  long r = sp_dim(S), c = sp_dim(S);
  Arr<T> a = gen_sparse<T>(S, r, c, k);
  bool left = S.coin(), bad = S.coin(1, 150);   // left: sparse*tensor
  Dims d = S.coin(1, 80) ? gen_deep(S, 6, 10) : S.coin(1, 60) ? gen_dims(S, 1, 3, 40, false, 300) : gen_dims(S, 1, 5, 4, true, 60);
  long &shared = left ? d[0] : d.back();
  shared = left ? c : r;
  if (bad) shared += S.coin() && shared > 0 ? -1 : 1;
  Arr<T> b = gen_arr<T>(S, d, k);
  Sparse<T> s = mksp(S, a);
  Tensor<T> t = mk(b), copy = t;
  KeepSp<T> keep(s);
  NOTE((left ? "sparse*tensor " : "tensor*sparse ") << tname<T>() << " sparse " << show(a) << " tensor " << show(b));
  label(std::string(left ? "sparse*tensor rank " : "tensor*sparse rank ") + std::to_string(d.size()));
  auto run = [&]() -> Tensor<T> { return left ? mmult(s, t) : mmult(t, s); };
  if (bad) { label("mismatched"); must_refuse("a product of sizes that differ", [&] { run(); }); return; }
  if (nnz(a) > 1 && b.size() > 1) nontrivial();
  Dims e = d;
  (left ? e[0] : e.back()) = left ? r : c;
  Arr<T> want(e);
  std::vector<double> bound(want.v.size(), 0.0);
  long other = 1;
  for (size_t i = left ? 1 : 0; i < d.size() - (left ? 0 : 1); ++i) other *= d[i];
  for (long o = 0; o < other; ++o)
    for (long i = 0; i < r; ++i)
      for (long j = 0; j < c; ++j) {
        long src = left ? j + c * o : o + other * i, dst = left ? i + r * o : o + other * j;
        want.v[dst] += mulz(a(i, j), b.v[src]);
        bound[dst] += k == V_INT ? 0 : 4e-16 * (r + c + 4) * std::abs(a(i, j)) * std::abs(b.v[src]);
      }
  Tensor<T> out = run();
  expect_close("product", ld(out), want, bound);
  if (out.size()) out.at(0) = T(-77.0);
  expect_eq("the tensor afterwards", t, b);
  expect_eq("a copy of the tensor", copy, b);
  keep.check("the sparse matrix");
}
TEST(mmult_R, 300000, 2500000) { products<double>(S); }
TEST(mmult_C, 300000, 2500000) { products<cd>(S); }

// matrices of up to 2^40 columns or 2^17 rows
template <class A, class B> void wide(Src &S, bool tall) {
  typedef typename Res<A, B>::type R;
  Wide<A> a = gen_wide<A>(S, tall, S.coin());
  Wide<B> b;
  b.r = a.r; b.c = a.c;
  for (auto &x : a.e) if (S.coin()) b.e[x.first] = B(S.coin() ? std::real(cd(x.second)) : -std::real(cd(x.second)));
  for (long n = S.range(0, 8); n > 0; --n) { long i = coord(S, a.r), j = coord(S, a.c); b.e[std::make_pair(i, j)] = gen_val<B>(S, V_INT); }
  for (auto it = b.e.begin(); it != b.e.end();) if (it->second == B(0)) it = b.e.erase(it); else ++it;
  NOTE("wide " << tname<A>() << tname<B>() << " A " << show(a) << " B " << show(b));
  label(tall ? "many rows" : a.c > 2000000 ? "more than 2^31 columns" : "many columns");
  if (a.e.size() > 1 && b.e.size() > 1) nontrivial();
  Wide<R> p, m, t, q;
  p.r = m.r = t.r = q.r = a.r;
  p.c = m.c = t.c = q.c = a.c;
  for (auto &x : a.e) { p.add(x.first.first, x.first.second, x.second); m.add(x.first.first, x.first.second, x.second); q.add(x.first.first, x.first.second, R(x.second) * R(2.0)); }
  for (auto &x : b.e) {
    p.add(x.first.first, x.first.second, x.second);
    m.add(x.first.first, x.first.second, -x.second);
    auto it = a.e.find(x.first);
    if (it != a.e.end()) t.add(x.first.first, x.first.second, mulz(R(it->second), R(x.second)));
  }
  Sparse<A> sa = mk(S, a);
  Sparse<B> sb = mk(S, b);
  expect_wide("A+B", Sparse<R>(sa + sb), p);
  expect_wide("A-B", Sparse<R>(sa - sb), m);
  expect_wide("A*B", Sparse<R>(sa * sb), t);
  expect_wide("A*2", Sparse<R>(sa * B(2.0)), q);
  expect_wide("2*A", Sparse<R>(B(2.0) * sa), q);
  expect_wide("A/0.5", Sparse<R>(sa / B(0.5)), q);
  expect_wide("A afterwards", sa, a);
  expect_wide("B afterwards", sb, b);
}
TEST(wide_RR, 30000, 200000) { wide<double, double>(S, false); }
TEST(wide_CC, 30000, 200000) { wide<cd, cd>(S, false); }
TEST(wide_RC, 20000, 150000) { wide<double, cd>(S, false); }
TEST(tall_RR, 400, 2500) { wide<double, double>(S, true); }
TEST(tall_CR, 400, 2500) { wide<cd, double>(S, true); }
template <class T> void wide_product(Src &S) {
  bool tall = S.coin(), left = S.coin();
  Wide<T> a = gen_wide<T>(S, tall, false);
  long o = S.range(1, 3);
  Arr<T> b(left ? Dims{a.c, o} : Dims{o, a.r});
  for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = T((double)((i * 7919) % 17) - 8.0);
  NOTE((left ? "wide sparse*tensor " : "tensor*wide sparse ") << tname<T>() << " " << show(a) << " other dimension " << o);
  label(tall ? "many rows" : "many columns");
  if (a.e.size() > 1) nontrivial();
  Arr<T> want(left ? Dims{a.r, o} : Dims{o, a.c});
  for (auto &x : a.e)
    for (long k = 0; k < o; ++k)
      if (left) want(x.first.first, k) += mulz(x.second, b(x.first.second, k));
      else want(k, x.first.second) += mulz(b(k, x.first.first), x.second);
  Sparse<T> s = mk(S, a);
  Tensor<T> t = mk(b);
  expect_eq("product", left ? mmult(s, t) : mmult(t, s), want, NUM);
  expect_wide("the sparse matrix afterwards", s, a);
}
TEST(wide_mmult_R, 300, 2500) { wide_product<double>(S); }
TEST(wide_mmult_C, 300, 2500) { wide_product<cd>(S); }
