#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C05";
const char *pbt::RULE =
    "Random shapes of rank 1-6 (zero sizes included) with integer, real and special values (NaN, infinities, subnormals, signed zeros), "
    "all operators, all operand type pairs, operands that share data or whose scalar is a reference into the tensor. Non-trivial: at "
    "least two elements are computed, or the operation must be refused.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "same-type operands conformant in size but not in their indices are accepted, as doc/sec_intro.hdoc states; only different numbers of elements must be refused",
    "the oracle is the C++ scalar operator on the operand types, compiled with the same compiler and flags; all NaNs are alike"};

template <class A, class B> using R = typename Binop<A, B>::type;
template <class A, class B> __attribute__((noinline)) R<A, B> sc(int op, A a, B b) {
  switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; }
}
static const char *OP[] = {"+", "-", "*", "/"};

template <class A, class B> void tt(Src &S) {
  int op = (int)S.draw(4);
  Dims d = gen_shape(S);
  VKind k = gen_vkind(S, true);
  Arr<A> a = gen_arr<A>(S, d, k);
  Arr<B> b = gen_arr<B>(S, d, k);
  Tensor<A> ta = mk(a), ka = ta;
  Tensor<B> tb = mk(b), kb = tb;
  NOTE(tname<A>() << "Tensor " << OP[op] << " " << tname<B>() << "Tensor dims=" << show(d) << " a=" << show(a.v) << " b=" << show(b.v));
  label(std::string(tname<A>()) + OP[op] + tname<B>());
  if (a.size() >= 2) nontrivial();
  Arr<R<A, B>> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = sc(op, a.v[i], b.v[i]);
  Tensor<R<A, B>> r;
  switch (op) { case 0: r = ta + tb; break; case 1: r = ta - tb; break; case 2: r = ta * tb; break; default: r = ta / tb; }
  expect_eq("result", r, want, VAL);
  expect_eq("left operand", ta, a); expect_eq("right operand", tb, b);
  expect_eq("copy of the left operand", ka, a); expect_eq("copy of the right operand", kb, b);
}
template <class A> void tt_alias(Src &S) {   // both operands are the same object or share data
  int op = (int)S.draw(4);
  Dims d = gen_shape(S);
  Arr<A> a = gen_arr<A>(S, d, gen_vkind(S, true));
  Tensor<A> ta = mk(a), tc = ta;
  int how = (int)S.draw(3);
  NOTE(tname<A>() << "Tensor " << OP[op] << (how == 0 ? " itself" : how == 1 ? " a copy" : " itself, stored into itself") << " a=" << show(a));
  if (a.size() >= 2) nontrivial();
  Arr<A> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = sc(op, a.v[i], a.v[i]);
  const Tensor<A> &o = how == 1 ? tc : ta;
  Tensor<A> r;
  Tensor<A> &out = how == 2 ? ta : r;
  switch (op) { case 0: out = ta + o; break; case 1: out = ta - o; break; case 2: out = ta * o; break; default: out = ta / o; }
  expect_eq("result", out, want, VAL);
  if (how != 2) expect_eq("operand", ta, a);
  expect_eq("copy of the operand", tc, a);
}
template <class A, class B> void tn(Src &S) {
  int op = (int)S.draw(4);
  bool left = S.coin();
  Dims d = gen_shape(S);
  VKind k = gen_vkind(S, true);
  Arr<A> a = gen_arr<A>(S, d, k);
  B x = gen_val<B>(S, k);
  Tensor<A> ta = mk(a), ka = ta;
  NOTE((left ? "number " : "tensor ") << OP[op] << (left ? " tensor" : " number") << " a=" << show(a) << " number=" << x);
  label(left ? std::string(tname<B>()) + "num" + OP[op] + tname<A>() : std::string(tname<A>()) + OP[op] + tname<B>() + "num");
  if (a.size() >= 2) nontrivial();
  Arr<R<A, B>> want(d);
  Tensor<R<A, B>> r;
  for (long i = 0; i < a.size(); ++i) want.v[i] = left ? sc(op, x, a.v[i]) : sc(op, a.v[i], x);
  if (left) switch (op) { case 0: r = x + ta; break; case 1: r = x - ta; break; case 2: r = x * ta; break; default: r = x / ta; }
  else switch (op) { case 0: r = ta + x; break; case 1: r = ta - x; break; case 2: r = ta * x; break; default: r = ta / x; }
  expect_eq("result", r, want, VAL);
  expect_eq("operand", ta, a);
  expect_eq("copy of the operand", ka, a);
}
template <class A> void neg(Src &S) {
  Dims d = gen_shape(S);
  Arr<A> a = gen_arr<A>(S, d, gen_vkind(S, true)), want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = -a.v[i];
  NOTE("- " << show(a));
  if (a.size() >= 2) nontrivial();
  Tensor<A> ta = mk(a);
  expect_eq("result", Tensor<A>(-ta), want, VAL);
  expect_eq("operand", ta, a);
}
// A op= B; the target may share its data with a third tensor or with the right operand
template <class A, class B> void compound(Src &S) {
  int op = (int)S.draw(4);
  Dims d = gen_shape(S);
  VKind k = gen_vkind(S, true);
  Arr<A> a = gen_arr<A>(S, d, k);
  Arr<B> b = gen_arr<B>(S, d, k);
  bool shared = S.coin();
  Tensor<A> ta = mk(a), ka;
  Tensor<B> tb = mk(b), kb = tb;
  if (shared) ka = ta;
  NOTE(tname<A>() << "Tensor " << OP[op] << "= " << tname<B>() << "Tensor" << (shared ? ", target shared" : "") << " dims=" << show(d) << " a=" << show(a.v) << " b=" << show(b.v));
  label(std::string(tname<A>()) + OP[op] + "=" + tname<B>());
  if (a.size() >= 2) nontrivial();
  Arr<A> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = sc(op, a.v[i], b.v[i]);
  switch (op) {
    case 0: { Tensor<A> &r = (ta += tb); CHECK(&r == &ta, "+= does not return its target"); break; }
    case 1: { Tensor<A> &r = (ta -= tb); CHECK(&r == &ta, "-= does not return its target"); break; }
    case 2: ta *= tb; break;
    default: ta /= tb;
  }
  expect_eq("target", ta, want, VAL);
  expect_eq("right operand", tb, b);
  if (shared) expect_eq("object sharing data with the target", ka, a);
}
template <class A> void compound_alias(Src &S) {
  int op = (int)S.draw(4);
  Dims d = gen_shape(S);
  Arr<A> a = gen_arr<A>(S, d, gen_vkind(S, true));
  Tensor<A> ta = mk(a);
  bool copy = S.coin();
  Tensor<A> other;
  if (copy) other = ta;
  const Tensor<A> &rhs = copy ? other : ta;
  NOTE(tname<A>() << "Tensor " << OP[op] << "= " << (copy ? "a copy" : "itself") << " a=" << show(a));
  if (a.size() >= 2) nontrivial();
  Arr<A> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = sc(op, a.v[i], a.v[i]);
  switch (op) { case 0: ta += rhs; break; case 1: ta -= rhs; break; case 2: ta *= rhs; break; default: ta /= rhs; }
  expect_eq("target", ta, want, VAL);
  if (copy) expect_eq("right operand", other, a);
}
template <class A, class B> void compound_num(Src &S) {
  int op = (int)S.draw(4);
  Dims d = gen_shape(S);
  VKind k = gen_vkind(S, true);
  Arr<A> a = gen_arr<A>(S, d, k);
  B x = gen_val<B>(S, k);
  bool shared = S.coin();
  Tensor<A> ta = mk(a), ka;
  if (shared) ka = ta;
  NOTE(tname<A>() << "Tensor " << OP[op] << "= number " << x << " a=" << show(a));
  label(std::string(tname<A>()) + OP[op] + "=" + tname<B>() + "num");
  if (a.size() >= 2) nontrivial();
  Arr<A> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = sc(op, a.v[i], x);
  switch (op) { case 0: ta += x; break; case 1: ta -= x; break; case 2: ta *= x; break; default: ta /= x; }
  expect_eq("target", ta, want, VAL);
  if (shared) expect_eq("object sharing data with the target", ka, a);
}
// the scalar is a reference to an element of the tensor itself
template <class A> void own_element(Src &S) {
  int op = (int)S.draw(4), form = (int)S.draw(3);
  Dims d = gen_dims(S, 1, 4, 4, false, 60);
  Arr<A> a = gen_arr<A>(S, d, gen_vkind(S, true));
  long j = S.range(0, a.size() - 1);
  bool shared = S.coin();
  Tensor<A> ta = mk(a), ka;
  if (shared) ka = ta;
  NOTE("a " << OP[op] << (form == 0 ? "=" : "") << " a[" << j << "] form " << form << (shared ? " shared" : "") << " a=" << show(a));
  label(form == 0 ? "compound with own element" : "own element");
  if (a.size() >= 2) nontrivial();
  A x = a.v[j];
  Arr<A> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = form == 2 ? sc(op, x, a.v[i]) : sc(op, a.v[i], x);
  const Tensor<A> &c = ta;
  if (form == 0) switch (op) { case 0: ta += c[j]; break; case 1: ta -= c[j]; break; case 2: ta *= c[j]; break; default: ta /= c[j]; }
  else if (form == 1) switch (op) { case 0: ta = ta + c[j]; break; case 1: ta = ta - c[j]; break; case 2: ta = ta * c[j]; break; default: ta = ta / c[j]; }
  else switch (op) { case 0: ta = c[j] + ta; break; case 1: ta = c[j] - ta; break; case 2: ta = c[j] * ta; break; default: ta = c[j] / ta; }
  expect_eq("result", ta, want, VAL);
  if (shared) expect_eq("object sharing data", ka, a);
}
template <class A, class B> void refused(Src &S) {
  int op = (int)S.draw(4);
  bool comp = std::is_same<A, R<A, B>>::value && S.coin();
  Dims d = gen_dims(S, 1, 4, 4, true, 60), e = d;
  if (S.coin(1, 4)) e = gen_dims(S, 1, 4, 4, true, 60);
  else e[S.draw(e.size())] += S.range(1, 3);
  if (S.coin()) std::swap(d, e);
  bool mixed = !std::is_same<A, B>::value;
  if (mixed && S.coin(1, 3)) { e = d; e.push_back(1); }   // the mixed forms also compare the indices
  if (mixed ? d == e : prod(d) == prod(e)) DISCARD();
  nontrivial();
  label(std::string(tname<A>()) + OP[op] + (comp ? "=" : "") + tname<B>());
  Tensor<A> ta = mk(tag_arr<A>(d));
  Tensor<B> tb = mk(tag_arr<B>(e));
  std::string w = std::string("dims ") + show(d) + " " + OP[op] + (comp ? "= " : " ") + "dims " + show(e);
  NOTE(w);
  must_refuse(w, [&] {
    if constexpr (std::is_same<A, R<A, B>>::value) {
      if (comp) { switch (op) { case 0: ta += tb; break; case 1: ta -= tb; break; case 2: ta *= tb; break; default: ta /= tb; } return; }
    }
    Tensor<R<A, B>> r;
    switch (op) { case 0: r = ta + tb; break; case 1: r = ta - tb; break; case 2: r = ta * tb; break; default: r = ta / tb; }
  });
}
#define T2(N, F, q, t) TEST(N##_RR, q, t) { F<double, double>(S); } TEST(N##_CC, q, t) { F<cd, cd>(S); }
#define T4(N, F, q, t) T2(N, F, q, t) TEST(N##_CR, q, t) { F<cd, double>(S); } TEST(N##_RC, q, t) { F<double, cd>(S); }
T4(tt, tt, 30000, 600000)
TEST(alias_R, 80000, 480000) { tt_alias<double>(S); }
TEST(alias_C, 80000, 480000) { tt_alias<cd>(S); }
T4(tn, tn, 30000, 600000)
TEST(neg_R, 40000, 240000) { neg<double>(S); }
TEST(neg_C, 40000, 240000) { neg<cd>(S); }
T2(compound, compound, 30000, 600000)
TEST(compound_CR, 120000, 800000) { compound<cd, double>(S); }
TEST(compound_alias_R, 80000, 480000) { compound_alias<double>(S); }
TEST(compound_alias_C, 80000, 480000) { compound_alias<cd>(S); }
T2(compound_num, compound_num, 30000, 600000)
TEST(compound_num_CR, 120000, 800000) { compound_num<cd, double>(S); }
TEST(own_element_R, 60000, 360000) { own_element<double>(S); }
TEST(own_element_C, 60000, 360000) { own_element<cd>(S); }
T4(refused, refused, 1500, 10000)
