#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C07";
const char *pbt::RULE =
    "Random shapes and index lists whose elements come from small sets (many ties) and special values; all six operators, tensor/tensor, "
    "tensor/scalar and scalar/tensor order, real, complex and integer. Non-trivial: at least two elements are compared, or the operation "
    "must be refused.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"elements agree when the scalar == holds (NaN differs from itself, zeros of either sign agree)"};
static const char *OP[] = {"==", "!=", "<", ">", "<=", ">="};
template <class A, class B> bool sc(int op, const A &a, const B &b) {
  if constexpr (std::is_same<A, cd>::value || std::is_same<B, cd>::value) return op == 0 ? a == b : a != b;
  else switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; }
}
template <class X, class Y> Booleans tc(int op, const X &a, const Y &b) {
  if constexpr (std::is_same<X, CTensor>::value || std::is_same<Y, CTensor>::value) { if (op == 0) return a == b; return a != b; }
  else switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; }
}
template <class T> int nops() { return std::is_same<T, cd>::value ? 2 : 6; }
static VKind kind(Src &S) { static const VKind k[] = {V_TINYSET, V_SPECIAL, V_INT, V_REAL}; return S.elem(k); }

template <class T> void compare(Src &S) {
  int op = (int)S.draw(nops<T>()), form = (int)S.draw(3);
  Dims d = gen_shape(S);
  VKind k = kind(S);
  Arr<T> a = gen_arr<T>(S, d, k), b = gen_arr<T>(S, d, k);
  for (long i = 0; i < b.size(); ++i) if (S.coin(1, 4)) b.v[i] = a.v[i];
  T x = a.size() && S.coin() ? a.v[S.draw(a.size())] : gen_val<T>(S, k);
  Tensor<T> ta = mk(a), tb = mk(b);
  if (form == 0 && S.coin(1, 5)) { tb = ta; b = a; }
  std::vector<char> want;
  for (long i = 0; i < a.size(); ++i) want.push_back(form == 0 ? sc(op, a.v[i], b.v[i]) : form == 1 ? sc(op, a.v[i], x) : sc(op, x, a.v[i]));
  NOTE((form == 2 ? "number " : "tensor ") << OP[op] << (form == 0 ? " tensor" : form == 1 ? " number" : " tensor") << " a=" << show(a) << " b=" << show(b.v) << " number=" << x);
  label(std::string(tname<T>()) + " form" + std::to_string(form) + OP[op]);
  if (a.size() >= 2) nontrivial();
  expect_eq("comparison", ldb(form == 0 ? tc(op, ta, tb) : form == 1 ? tc(op, ta, x) : tc(op, x, ta)), want);
  expect_eq("left operand", ta, a); expect_eq("right operand", tb, b);
}
TEST(compare_R, 800000, 5333333) { compare<double>(S); }
TEST(compare_C, 400000, 2666666) { compare<cd>(S); }
// a complex tensor against a real number
TEST(compare_CR, 120000, 720000) {
  int op = (int)S.draw(2); bool left = S.coin();
  Dims d = gen_shape(S);
  Arr<cd> a(d);
  for (auto &z : a.v) z = cd((double)S.sint(1), S.coin() ? (double)S.sint(1) : 0.0);
  double x = (double)S.sint(1);
  std::vector<char> want;
  for (cd z : a.v) want.push_back(sc(op, z, x));
  if (a.size() >= 2) nontrivial();
  NOTE(OP[op] << " " << x << " a=" << show(a));
  CTensor t = mk(a);
  expect_eq("comparison with a real number", ldb(left ? (op == 0 ? cd(x) == t : cd(x) != t) : (op == 0 ? t == cd(x) : t != cd(x))), want);
}
static Dims gen_list(Src &S, long maxlen) {
  Dims l; long n = S.coin(1, 2000) ? S.range(100, 5000) : S.range(0, maxlen);
  int k = (int)S.draw(3);
  static const long BIG[] = {0, 1, -1, 9007199254740992L, 9007199254740993L, -9007199254740993L, 9223372036854775807L, -9223372036854775807L - 1, 4294967296L, 2147483648L};
  for (long i = 0; i < n; ++i) l.push_back(k == 0 ? S.sint(2) : k == 1 ? S.sint(1000) : S.elem(BIG));
  return l;
}
TEST(compare_I, 600000, 4000000) {
  int op = (int)S.draw(6), form = (int)S.draw(3);
  Dims a = gen_list(S, 8), b = a;
  for (auto &x : b) if (!S.coin(1, 3)) x = S.coin() ? S.sint(2) : a[S.draw(a.size())];
  long x = a.size() && S.coin() ? a[S.draw(a.size())] : S.sint(2);
  std::vector<char> want;
  for (size_t i = 0; i < a.size(); ++i) want.push_back(form == 0 ? sc(op, a[i], b[i]) : form == 1 ? sc(op, a[i], x) : sc(op, x, a[i]));
  NOTE("indices " << OP[op] << " form " << form << " a=" << show(a) << " b=" << show(b) << " number=" << x);
  label("I form" + std::to_string(form) + OP[op]);
  if (a.size() >= 2) nontrivial();
  Indices ia = ix(a), ib = ix(b);
  expect_eq("comparison", ldb(form == 0 ? tc(op, ia, ib) : form == 1 ? tc(op, ia, x) : tc(op, x, ia)), want);
  expect_eq("left operand", ld(ia), a); expect_eq("right operand", ld(ib), b);
}
// whole-object equality
template <class T> void whole(Src &S) {
  Dims d = S.coin(1, 60) ? gen_deep(S) : S.coin(1, 60) ? gen_dims(S, 1, 3, 300, false, 3000) : gen_dims(S, 1, 5, 4, true, 40), e = d;
  VKind k = kind(S);
  Arr<T> a = gen_arr<T>(S, d, k), b = a;
  switch (S.draw(5)) {
    case 0: break;
    case 1: if (b.size()) b.v[S.draw(b.size())] = gen_val<T>(S, k); break;
    case 2: if (b.size()) { long i = S.draw(b.size()); b.v[i] = -b.v[i]; } break;
    case 3: e.push_back(1); b.d = e; break;
    default: if (d.size() > 1) { std::swap(e[0], e[1]); b.d = e; }
  }
  bool want = a.d == b.d;
  for (long i = 0; i < a.size() && want; ++i) want = a.v[i] == b.v[i];
  Tensor<T> ta = mk(a), tb = mk(b);
  NOTE("all_equal " << show(a) << " and " << show(b));
  label(want ? "equal" : a.d == b.d ? "values differ" : "dims differ");
  if (a.size() >= 2) nontrivial();
  CHECK(all_equal(ta, tb) == want, "all_equal is not " << want);
  CHECK(some_unequal(ta, tb) == !want, "some_unequal is not " << !want);
  bool nan = false;
  for (auto &x : a.v) nan = nan || !(x == x);
  Tensor<T> tc_ = ta;
  CHECK(all_equal(ta, tc_) == !nan, "a tensor compared with its copy");
  T x = a.size() && S.coin() ? a.v[S.draw(a.size())] : gen_val<T>(S, k);
  if (S.coin()) { long keep = a.size() ? S.draw(a.size() + 1) : 0; for (long i = 0; i < a.size(); ++i) if (i != keep) a.v[i] = x; ta = mk(a); }
  bool allx = true;
  for (auto &y : a.v) allx = allx && y == x;
  CHECK(all_equal(ta, x) == allx, "all_equal(tensor,number) is not " << allx << " for " << show(a) << " and " << x);
  CHECK(all_equal(x, ta) == allx, "all_equal(number,tensor) is not " << allx);
  CHECK(some_unequal(ta, x) == !allx, "some_unequal(tensor,number) is not " << !allx);
}
TEST(whole_R, 240000, 1440000) { whole<double>(S); }
TEST(whole_C, 240000, 1440000) { whole<cd>(S); }
TEST(whole_I, 240000, 1440000) {
  Dims a = gen_list(S, 7), b = a;
  switch (S.draw(4)) {
    case 0: break;
    case 1: if (b.size()) b[S.draw(b.size())] = S.sint(2); break;
    case 2: b.push_back(0); break;
    default: if (b.size()) b.pop_back();
  }
  NOTE("indices " << show(a) << " and " << show(b));
  if (a.size() >= 2) nontrivial();
  CHECK(all_equal(ix(a), ix(b)) == (a == b), "all_equal of index lists is not " << (a == b));
  CHECK(some_unequal(ix(a), ix(b)) == (a != b), "some_unequal of index lists is not " << (a != b));
  Vector<tensor::index> va = ix(a), vb = ix(b);
  CHECK((va == vb) == (a == b), "== of vectors is not " << (a == b));
  if (b.size() == 3) {
    bool w = a == b;
    CHECK((ix(a) == (igen << b[0] << b[1] << b[2])) == w && ((igen << b[0] << b[1] << b[2]) == ix(a)) == w, "== between an index list and a generated list is not " << w);
  }
}
TEST(booleans, 400000, 2666666) {
  long n = S.coin(1, 500) ? S.range(50, 3000) : S.coin(1, 20) ? S.range(13, 70) : S.range(0, 12);
  int bias = (int)S.draw(4);
  auto g = [&] { return bias == 0 ? S.coin() : bias == 1 ? S.coin(1, 10) : bias == 2 ? S.coin(9, 10) : bias == 3 && S.coin(1, 2); };
  std::vector<char> a, b;
  for (long i = 0; i < n; ++i) { a.push_back(g()); b.push_back(g()); }
  Booleans ba(n), bb(n);
  for (long i = 0; i < n; ++i) { ba.at(i) = a[i]; bb.at(i) = b[i]; }
  NOTE("booleans " << show(a) << " " << show(b));
  if (n >= 2) nontrivial();
  std::vector<char> no, an, o, x;
  Dims w;
  bool all = true, any = false;
  for (long i = 0; i < n; ++i) { no.push_back(!a[i]); an.push_back(a[i] && b[i]); o.push_back(a[i] || b[i]); all = all && a[i]; any = any || a[i]; if (a[i]) w.push_back(i); }
  expect_eq("!", ldb(!ba), no); expect_eq("&&", ldb(ba && bb), an); expect_eq("||", ldb(ba || bb), o);
  CHECK(all_of(ba) == all, "all_of is not " << all); CHECK(any_of(ba) == any, "any_of is not " << any); CHECK(none_of(ba) == !any, "none_of is not " << !any);
  expect_eq("which", ld(which(ba)), w);
  expect_eq("operand", ldb(ba), a); expect_eq("operand", ldb(bb), b);
}
TEST(refused, 12000, 72000) {
  long n = S.range(0, 5), m = S.range(0, 5);
  if (n == m) DISCARD();
  nontrivial();
  int what = (int)S.draw(4), op = (int)S.draw(6);
  std::ostringstream o; o << (what == 0 ? "RTensor " : what == 1 ? "CTensor " : what == 2 ? "Indices " : "Booleans ") << n << " " << OP[op] << " " << m;
  NOTE(o.str());
  label(o.str().substr(0, 7));
  RTensor ra = mk(tag_arr<double>(Dims{n})), rb = mk(tag_arr<double>(Dims{m}));
  CTensor ca = ra, cb = rb;
  Indices ia(n), ib(m);
  for (long i = 0; i < n; ++i) ia.at(i) = i;
  for (long i = 0; i < m; ++i) ib.at(i) = i;
  Booleans ba(n), bb(m);
  std::fill(ba.begin(), ba.end(), true); std::fill(bb.begin(), bb.end(), true);
  must_refuse(o.str(), [&] {
    Booleans r;
    if (what == 0) r = tc(op, ra, rb); else if (what == 1) r = tc(op % 2, ca, cb); else if (what == 2) r = tc(op, ia, ib);
    else if (op % 2) r = ba && bb; else r = ba || bb;
  });
}
