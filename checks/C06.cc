#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C06";
const char *pbt::RULE =
    "Random shapes of rank 1-6 (zero sizes included), elements drawn from integers, reals, and special values (NaN, infinities, "
    "subnormals, signed zeros, huge, half-integers). Non-trivial: at least two elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the scalar function is the one of the C++ standard library of this machine; all NaNs are alike"};

template <class A, class B> struct Fn { const char *name; Tensor<B> (*f)(const Tensor<A> &); B (*g)(A); };
#define F(A, B, n) {#n, [](const Tensor<A> &t) -> Tensor<B> { return tensor::n(t); }, [](A x) -> B { return std::n(x); }}
static const Fn<double, double> FR[] = {F(double, double, abs), F(double, double, cos), F(double, double, sin), F(double, double, tan), F(double, double, cosh), F(double, double, sinh),
    F(double, double, tanh), F(double, double, exp), F(double, double, sqrt), F(double, double, log), F(double, double, round),
    {"conj", [](const RTensor &t) -> RTensor { return conj(t); }, [](double x) { return x; }},
    {"real", [](const RTensor &t) -> RTensor { return real(t); }, [](double x) { return x; }},
    {"imag", [](const RTensor &t) -> RTensor { return imag(t); }, [](double x) { return 0.0; }}};
static const Fn<cd, cd> FC[] = {F(cd, cd, cos), F(cd, cd, sin), F(cd, cd, tan), F(cd, cd, cosh), F(cd, cd, sinh), F(cd, cd, tanh), F(cd, cd, exp), F(cd, cd, sqrt), F(cd, cd, log),
    {"conj", [](const CTensor &t) -> CTensor { return conj(t); }, [](cd x) { return std::conj(x); }},
    {"to_complex", [](const CTensor &t) -> CTensor { return to_complex(t); }, [](cd x) { return x; }}};
static const Fn<cd, double> FCR[] = {F(cd, double, abs), F(cd, double, real), F(cd, double, imag)};
static const Fn<double, cd> FRC[] = {{"to_complex", [](const RTensor &t) -> CTensor { return to_complex(t); }, [](double x) { return cd(x, 0.0); }},
    {"coercion", [](const RTensor &t) -> CTensor { return CTensor(t); }, [](double x) { return cd(x, 0.0); }}};

template <class A, class B, size_t N> void apply(Src &S, const Fn<A, B> (&fs)[N]) {
  const Fn<A, B> &f = S.elem(fs);
  Dims d = gen_shape(S);
  Arr<A> a = gen_arr<A>(S, d, gen_vkind(S, true));
  NOTE(f.name << "(" << tname<A>() << " " << show(a) << ")");
  label(std::string(f.name) + " " + tname<A>());
  if (a.size() >= 2) nontrivial();
  Arr<B> want(d);
  for (long i = 0; i < a.size(); ++i) want.v[i] = f.g(a.v[i]);
  Tensor<A> t = mk(a), copy = t;
  Tensor<B> r = f.f(t);
  expect_eq(std::string(f.name) + " result", r, want, VAL);
  expect_eq(std::string(f.name) + " argument", t, a);
  if (r.size()) r.at_seq(0) = B(42.0);
  expect_eq(std::string(f.name) + " argument after changing the result", t, a);
  expect_eq("copy of the argument", copy, a);
}
TEST(real_functions, 750000, 5000000) { apply(S, FR); }
TEST(complex_functions, 750000, 5000000) { apply(S, FC); }
TEST(complex_to_real, 300000, 1800000) { apply(S, FCR); }
TEST(real_to_complex, 150000, 900000) { apply(S, FRC); }

TEST(recovery, 300000, 1800000) {
  Dims d = gen_shape(S);
  VKind k = gen_vkind(S, true);
  Arr<cd> z = gen_arr<cd>(S, d, k);
  NOTE("z=" << show(z));
  if (z.size() >= 2) nontrivial();
  CTensor t = mk(z);
  expect_eq("to_complex(real,imag)", CTensor(to_complex(real(t), imag(t))), z);
  expect_eq("conj(conj)", CTensor(conj(conj(t))), z);
  Arr<double> re = gen_arr<double>(S, d, k), im = gen_arr<double>(S, d, k);
  RTensor tr = mk(re), ti = mk(im);
  CTensor c = to_complex(tr, ti);
  expect_eq("real of composed", RTensor(real(c)), re);
  expect_eq("imag of composed", RTensor(imag(c)), im);
  CTensor same = to_complex(tr, tr);
  expect_eq("imag of composed from one tensor", RTensor(imag(same)), re);
  Arr<cd> cc(d);
  for (long i = 0; i < cc.size(); ++i) cc.v[i] = cd(re.v[i], -im.v[i]);
  expect_eq("conj of composed", CTensor(conj(c)), cc);
  expect_eq("real part given", tr, re); expect_eq("imaginary part given", ti, im); expect_eq("argument", t, z);
}
TEST(refused, 7500, 45000) {
  Dims d = gen_dims(S, 1, 4, 4, true, 60), e = gen_dims(S, 1, 4, 4, true, 60);
  if (prod(d) == prod(e)) DISCARD();
  nontrivial();
  RTensor a = mk(tag_arr<double>(d)), b = mk(tag_arr<double>(e));
  std::string w = "to_complex of dims " + show(d) + " and " + show(e);
  NOTE(w);
  must_refuse(w, [&] { CTensor c = to_complex(a, b); });
}
