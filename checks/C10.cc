#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C10";
const char *pbt::RULE =
    "Random pairs of tensors of rank 1-5 sharing the size of one index each (any position, written positive or negative), real, complex and mixed; now and then with "
    "a contracted or free dimension of up to 66000; fold, foldc, foldin, mmult and the variants storing into a given tensor, whose previous content is arbitrary or which is "
    "an operand or shares its data. Integer values are compared exactly, others within the forward error bound of an inner product. Non-trivial: the contracted index "
    "has size two or more and the result two or more elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"contracting an index of size zero may be refused or give zeros", "infinities and NaN are excluded (BLAS may skip zero factors)"};

template <class T> Arr<cd> cplx_of(const Arr<T> &a) { return cplx(a); }
template <class T> Arr<T> cast_to(const Arr<cd> &a);
template <> Arr<cd> cast_to<cd>(const Arr<cd> &a) { return a; }
template <> Arr<double> cast_to<double>(const Arr<cd> &a) { Arr<double> r(a.d); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = a.v[i].real(); return r; }

// split dims around index i
static void around(const Dims &d, long i, long &l, long &m, long &r) {
  l = r = 1;
  for (long k = 0; k < (long)d.size(); ++k) (k < i ? l : k > i ? r : m) *= k == i ? 1 : d[k];
  m = d[i];
}
struct Ref { Arr<cd> r; std::vector<double> bound; };
// direct definition; conj: the first tensor is conjugated; in: the in-place variety
static Ref contract(const Arr<cd> &a, long i1, const Arr<cd> &b, long i2, bool conj_a, bool in, bool exact) {
  long i_, l_, j_, k_, l2, m_;
  around(a.d, i1, i_, l_, j_);
  around(b.d, i2, k_, l2, m_);
  Dims d;
  auto add = [&](const Dims &x, long from, long to) { for (long q = from; q < to; ++q) d.push_back(x[q]); };
  long ra = a.d.size(), rb = b.d.size();
  if (!in) { add(a.d, 0, i1); add(a.d, i1 + 1, ra); add(b.d, 0, i2); add(b.d, i2 + 1, rb); }
  else { add(b.d, 0, i2); add(a.d, 0, i1); add(a.d, i1 + 1, ra); add(b.d, i2 + 1, rb); }
  if (d.empty()) d.push_back(1);
  Ref R;
  R.r = Arr<cd>(d);
  R.bound.assign(R.r.v.size(), 0.0);
  for (long i = 0; i < i_; ++i) for (long j = 0; j < j_; ++j) for (long k = 0; k < k_; ++k) for (long m = 0; m < m_; ++m) {
    cd s = 0;
    double ab = 0;
    for (long l = 0; l < l_; ++l) {
      cd x = a.v[i + i_ * (l + l_ * j)], y = b.v[k + k_ * (l + l_ * m)];
      if (conj_a) x = std::conj(x);
      s += cd(x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real());
      ab += (std::abs(x.real()) + std::abs(x.imag())) * (std::abs(y.real()) + std::abs(y.imag()));
    }
    long o = in ? k + k_ * (i + i_ * (j + j_ * m)) : i + i_ * (j + j_ * (k + k_ * m));
    R.r.v[o] = s;
    R.bound[o] = exact ? 0.0 : 4e-16 * (l_ + 4) * ab + 1e-300;
  }
  return R;
}
template <class T> Arr<T> any(Src &S, const Dims &d, bool exact) { return exact ? gen_arr<T>(S, d, V_INT) : gen_arr<T>(S, d, V_REAL); }

struct Pair { Dims da, db; long i1, i2; long p1, p2; };
static Pair gen_pair(Src &S, bool mm, bool mismatch = false) {
  Pair P;
  P.da = gen_dims(S, 1, 5, 5, true, 80);
  P.db = gen_dims(S, 1, 5, 5, true, 80);
  if (S.coin(1, 25)) { P.da = gen_dims(S, 1, 3, 40, false, 2000); P.db = gen_dims(S, 1, 3, 40, false, 2000); }
  if (S.coin(1, 50)) { P.da = gen_deep(S, 5, 9); P.db = gen_deep(S, 1, 9); for (auto *d : {&P.da, &P.db}) while (prod(*d) > 60) { for (auto &x : *d) if (x > 1) { x = 1; break; } } if (S.coin()) P.da.swap(P.db); }
  if (S.coin(1, 800)) { P.da = Dims{S.range(1, 6), S.range(30, 300)}; P.db = Dims{S.range(30, 300), S.range(1, 6)}; if (S.coin()) P.da.swap(P.db); }
  P.i1 = mm ? (long)P.da.size() - 1 : (long)S.draw(P.da.size());
  P.i2 = mm ? 0 : (long)S.draw(P.db.size());
  long l = S.coin(1, 40) ? S.range(1, 200) : S.coin(1, 40) ? 0 : S.range(1, 6);
  if (S.coin(1, 1500)) l = S.coin() ? S.range(1000, 5000) : S.range(65500, 66000);
  if (l > 20) { for (auto &x : P.da) x = std::min(x, 4L); for (auto &x : P.db) x = std::min(x, 4L); }
  P.da[P.i1] = P.db[P.i2] = l;
  if (mismatch) P.db[P.i2] = l + (S.coin() && l > 0 ? -1 : 1);
  P.p1 = S.coin(1, 3) ? P.i1 - (long)P.da.size() : P.i1;
  P.p2 = S.coin(1, 3) ? P.i2 - (long)P.db.size() : P.i2;
  return P;
}
static void describe(const char *op, const Pair &P) {
  auto pos = [](long i, size_t r) { return r == 1 ? "only" : i == 0 ? "first" : i == (long)r - 1 ? "last" : "middle"; };
  label(std::string(op) + " " + pos(P.i1, P.da.size()) + " with " + pos(P.i2, P.db.size()));
}
template <class TA, class TB, class TR> struct Op {
  const char *name; bool conj, in, mm;
  std::function<Tensor<TR>(const Tensor<TA> &, int, const Tensor<TB> &, int)> f;
};
// one of the dimensions, free or contracted, longer than 16-bit counters
static Pair long_pair(Src &S, bool mm) {
  Pair P;
  P.da = Dims{S.range(1, 3), S.range(1, 3), S.range(1, 2)};
  P.db = Dims{S.range(1, 2), S.range(1, 3), S.range(1, 3)};
  P.i1 = mm ? 2 : (long)S.draw(3);
  P.i2 = mm ? 0 : (long)S.draw(3);
  long n = S.coin(1, 3) ? S.range(32700, 33000) : S.range(65500, 66000), k = (long)S.draw(6);
  (k < 3 ? P.da[k] : P.db[k - 3]) = n;
  long l = k < 3 ? P.da[P.i1] : P.db[P.i2];
  P.da[P.i1] = P.db[P.i2] = l;
  P.p1 = S.coin(1, 3) ? P.i1 - 3 : P.i1;
  P.p2 = S.coin(1, 3) ? P.i2 - 3 : P.i2;
  return P;
}
template <class TA, class TB, class TR> void check_op(Src &S, const Op<TA, TB, TR> &op, bool very_long = false) {
  bool bad = !very_long && S.coin(1, 150);
  Pair P = very_long ? long_pair(S, op.mm) : gen_pair(S, op.mm, bad);
  bool exact = S.coin(2, 3);
  Arr<TA> a = any<TA>(S, P.da, exact);
  Arr<TB> b = any<TB>(S, P.db, exact);
  Tensor<TA> ta = mk(a);
  Tensor<TB> tb = mk(b);
  NOTE(op.name << " " << tname<TA>() << tname<TB>() << " A " << show(a) << " index " << P.p1 << ", B " << show(b) << " index " << P.p2);
  describe(op.name, P);
  auto run = [&] { return op.f(ta, (int)P.p1, tb, (int)P.p2); };
  if (bad) { label("mismatched"); must_refuse(std::string(op.name) + " of sizes that differ", [&] { run(); }); return; }
  Ref R = contract(cplx_of(a), P.i1, cplx_of(b), P.i2, op.conj, op.in, exact);
  long l = P.da[P.i1];
  if (l == 0) {
    if (!S.coin(1, 4)) DISCARD();
    Outcome o = must_not_crash(std::string(op.name) + " over an empty index", [&] {
      Arr<TR> got = ld(run());
      expect_eq("contraction of an empty index", got, cast_to<TR>(R.r), NUM);
    });
    (void)o;
    return;
  }
  if (l > 1 && R.r.size() > 1) nontrivial();
  Tensor<TA> ca = ta;
  Tensor<TB> cb = tb;
  Tensor<TR> out = run();
  expect_close(op.name, ld(out), cast_to<TR>(R.r), R.bound);
  if (out.size()) out.at(0) = TR(-77.0);
  expect_eq("first operand afterwards", ta, a);
  expect_eq("second operand afterwards", tb, b);
  expect_eq("copy of the first operand", ca, a);
  expect_eq("copy of the second operand", cb, b);
}
template <class A, class B, class R> Op<A, B, R> pick(Src &S) {
  switch (S.draw(3)) {
    case 1: return Op<A, B, R>{"foldc", true, false, false, [](const Tensor<A> &a, int i, const Tensor<B> &b, int j) { return Tensor<R>(foldc(a, i, b, j)); }};
    case 2: return Op<A, B, R>{"mmult", false, false, true, [](const Tensor<A> &a, int, const Tensor<B> &b, int) { return Tensor<R>(mmult(a, b)); }};
    default: return Op<A, B, R>{"fold", false, false, false, [](const Tensor<A> &a, int i, const Tensor<B> &b, int j) { return Tensor<R>(fold(a, i, b, j)); }};
  }
}
TEST(fold_RR, 150000, 2500000) { check_op(S, pick<double, double, double>(S)); }
TEST(fold_CC, 150000, 2500000) { check_op(S, pick<cd, cd, cd>(S)); }
TEST(fold_RC, 100000, 1500000) { check_op(S, pick<double, cd, cd>(S)); }
TEST(fold_CR, 100000, 1500000) { check_op(S, pick<cd, double, cd>(S)); }
TEST(foldin_RR, 120000, 2000000) { check_op(S, Op<double, double, double>{"foldin", false, true, false, [](const RTensor &a, int i, const RTensor &b, int j) { return RTensor(foldin(a, i, b, j)); }}); }
TEST(foldin_CC, 120000, 2000000) { check_op(S, Op<cd, cd, cd>{"foldin", false, true, false, [](const CTensor &a, int i, const CTensor &b, int j) { return CTensor(foldin(a, i, b, j)); }}); }
TEST(long_R, 120, 2500) {
  if (S.coin(1, 3)) check_op(S, Op<double, double, double>{"foldin", false, true, false, [](const RTensor &a, int i, const RTensor &b, int j) { return RTensor(foldin(a, i, b, j)); }}, true);
  else check_op(S, pick<double, double, double>(S), true);
}
TEST(long_C, 120, 2500) {
  if (S.coin(1, 3)) check_op(S, Op<cd, cd, cd>{"foldin", false, true, false, [](const CTensor &a, int i, const CTensor &b, int j) { return CTensor(foldin(a, i, b, j)); }}, true);
  else check_op(S, pick<cd, cd, cd>(S), true);
}

// the variants that store into a tensor that already exists
TEST(into, 150000, 2500000) {
  int op = (int)S.draw(3);
  static const char *names[] = {"fold_into", "foldin_into", "mmult_into"};
  Pair P = gen_pair(S, op == 2);
  long l = P.da[P.i1];
  if (l == 0) DISCARD();
  bool exact = S.coin(2, 3);
  int alias = (int)S.draw(7);
  bool same = S.coin(1, 6) && (op == 2 ? P.da[0] == P.da.back() : P.da[P.i1] == P.da[P.i2 % P.da.size()]);
  if (same) { if (op != 2) P.i2 = P.i2 % P.da.size(); P.p2 = P.i2; P.db = P.da; }
  Arr<double> a = any<double>(S, P.da, exact), b = same ? a : any<double>(S, P.db, exact);
  RTensor ta = mk(a), tb0 = mk(b);
  RTensor &tb = same ? ta : tb0;
  RTensor own;
  Arr<double> old;
  if (alias == 1 || alias > 5) { old = any<double>(S, gen_dims(S, 1, 4, 6, true, 60), true); own = mk(old); }
  if (alias == 4) own = ta;          // shares data with an operand
  if (alias == 5) own = tb;
  RTensor keepold = own;
  Arr<double> keepv = ld(keepold);
  RTensor &out = alias == 2 ? ta : alias == 3 ? tb : own;
  RTensor ca = ta, cb = tb;
  NOTE(names[op] << " A " << show(a) << " index " << P.p1 << ", B " << (same ? "the same tensor" : show(b)) << " index " << P.p2 << ", output "
       << (alias == 2 ? "is A" : alias == 3 ? "is B" : alias == 4 ? "shares A" : alias == 5 ? "shares B" : show(old)));
  describe(names[op], P);
  label("output case " + std::to_string(alias));
  Ref R = contract(cplx(a), P.i1, cplx(b), P.i2, false, op == 1, exact);
  if (l > 1 && R.r.size() > 1) nontrivial();
  if (op == 0) fold_into(out, ta, (int)P.p1, tb, (int)P.p2);
  else if (op == 1) foldin_into(out, ta, (int)P.p1, tb, (int)P.p2);
  else mmult_into(out, ta, tb);
  expect_close(names[op], ld(out), cast_to<double>(R.r), R.bound);
  if (out.size()) out.at(0) = -77.0;
  if (&out != &ta) expect_eq("first operand afterwards", ta, a);
  if (&out != &tb) expect_eq("second operand afterwards", tb, b);
  expect_eq("copy of the first operand", ca, a);
  expect_eq("copy of the second operand", cb, b);
  expect_eq("copy of the previous output", keepold, keepv);
}
