#include "sp.h"
#include <tensor/map.h>
using namespace tensor;
const char *pbt::PROPERTY = "C33";
const char *pbt::RULE =
    "Random real and complex matrices (dense and sparse, rectangular, 0-7 rows and columns) wrapped with and without transposition and applied to tensors of rank 1-4; functions and functors wrapped as maps; "
    "functions of 2-6 arguments with 1-5 of them bound (numbers, tensors, text, pointers), the originals being modified afterwards. Integer values, exact comparison with the explicit sums. "
    "Non-trivial: two or more elements in the matrix and in the argument, or two or more bound arguments.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"a map made of a functor refers to it: the functor lives as long as the map", "the transposed map multiplies from the right by the matrix (it contracts the last index of its argument)"};
inline cd mulz(cd x, cd y) { return cd(x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real()); }
inline double mulz(double x, double y) { return x * y; }
template <class T> Arr<T> apply(const Arr<T> &m, const Arr<T> &x, bool transposed) {
  Dims d = x.d;
  long r = m.d[0], c = m.d[1];
  if (!transposed) {
    long rest = 1;
    for (size_t i = 1; i < d.size(); ++i) rest *= d[i];
    d[0] = r;
    Arr<T> y(d);
    for (long k = 0; k < rest; ++k) for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) y.v[i + r * k] += mulz(m(i, j), x.v[j + c * k]);
    return y;
  }
  long rest = 1;
  for (size_t i = 0; i + 1 < d.size(); ++i) rest *= d[i];
  d.back() = c;
  Arr<T> y(d);
  for (long k = 0; k < rest; ++k) for (long j = 0; j < c; ++j) for (long i = 0; i < r; ++i) y.v[k + rest * j] += mulz(m(i, j), x.v[k + rest * i]);
  return y;
}
template <class T> void smash(Tensor<T> &t) { for (long i = 0; i < t.size(); ++i) t.at(i) = T(77.0); }
template <class T> void matrices(Src &S) {
  long r = S.range(1, 7), c = S.range(1, 7);
  bool sparse = S.coin(), tr = S.coin();
  Arr<T> a = gen_sparse<T>(S, r, c, V_INT);
  Dims d = gen_dims(S, 1, 4, 4, true, 60);
  (tr ? d.back() : d[0]) = tr ? r : c;
  Arr<T> x = gen_arr<T>(S, d, V_INT);
  Tensor<T> ta = mk(a), tx = mk(x), tx2 = tx;
  Sparse<T> sa = parts(a);
  NOTE((sparse ? "sparse" : "dense") << " map " << tname<T>() << (tr ? " transposed " : " ") << show(a) << " on " << show(x));
  label(std::string(sparse ? "sparse" : "dense") + (tr ? ", transposed" : "") + ", rank " + std::to_string(d.size()));
  if (a.size() > 1 && x.size() > 1) nontrivial();
  Arr<T> want = apply(a, x, tr), got;
  Map<Tensor<T> > *m;
  if (sparse) m = tr || S.coin() ? new MatrixMap<Sparse<T> >(sa, tr) : new MatrixMap<Sparse<T> >(sa);
  else m = tr || S.coin() ? new MatrixMap<Tensor<T> >(ta, tr) : new MatrixMap<Tensor<T> >(ta);
  bool changed = S.coin();
  if (changed) { smash(ta); sa = Sparse<T>(1, 1); }   // the map keeps its own matrix
  Tensor<T> y = (*m)(tx);
  expect_eq("the result", y, want, NUM);
  if (y.size()) y.at(0) = T(5.0);
  expect_eq("the result of a second call", (*m)(tx), want, NUM);
  expect_eq("the argument afterwards", tx, x);
  expect_eq("a copy of the argument", tx2, x);
  delete m;
  if (!changed) { expect_eq("the matrix afterwards", ta, a); expect_sp("the sparse matrix afterwards", sa, a); }
}
TEST(matrices_R, 600000, 3600000) { matrices<double>(S); }
TEST(matrices_C, 600000, 3600000) { matrices<cd>(S); }

template <class T> struct Affine {
  T a, b;
  const Tensor<T> operator()(const Tensor<T> &x) const { Tensor<T> y(x); for (long i = 0; i < y.size(); ++i) y.at(i) = mulz(a, x[i]) + b; return y; }
};
template <class T> const Tensor<T> f2(const Tensor<T> &x, T a) { return Affine<T>{a, T(0)}(x); }
template <class T> const Tensor<T> f3(const Tensor<T> &x, T a, const Tensor<T> *m) { return mmult(*m, Affine<T>{a, T(0)}(x)); }
template <class T> const Tensor<T> f4(const Tensor<T> &x, T a, T b, int k) { return Affine<T>{a, mulz(b, T((double)k))}(x); }
template <class T> const Tensor<T> f5(const Tensor<T> &x, T a, T b, int k, bool neg) { Tensor<T> y = f4(x, a, b, k); return neg ? Tensor<T>(-y) : y; }
template <class T> const Tensor<T> f6(const Tensor<T> &x, T a, T b, int k, bool neg, T c) { Tensor<T> y = f5(x, a, b, k, neg); for (long i = 0; i < y.size(); ++i) y.at(i) += c; return y; }
template <class T> const Tensor<T> by_value(Tensor<T> x, Tensor<T> m) { x.at(0) = T(1.0); m.at(0) = T(2.0); return mmult(m, x); }
template <class T> void closures(Src &S) {
  long n = S.range(1, 6);
  Arr<T> x = gen_arr<T>(S, Dims{n}, V_INT), m = gen_arr<T>(S, Dims{n, n}, V_INT);
  T a = gen_val<T>(S, V_INT), b = gen_val<T>(S, V_INT), c = gen_val<T>(S, V_INT), a0 = a, b0 = b, c0 = c;
  int k = (int)S.sint(5), k0 = k, o = (int)S.draw(8);
  bool neg = S.coin(), neg0 = neg;
  NOTE("closure " << o << " " << tname<T>() << " a " << a << " b " << b << " k " << k << " negate " << neg << " c " << c << " x " << show(x) << " m " << show(m));
  label("closure " + std::to_string(o));
  if (n > 1 && o) nontrivial();
  Tensor<T> tx = mk(x), tm = mk(m), keep = tm;
  Arr<T> y = x;
  Tensor<T> got;
  auto affine = [&](T p, T q) { for (auto &e : y.v) e = mulz(p, e) + q; };
  auto change = [&] { a = T(50.0); b = T(51.0); c = T(52.0); k = 53; neg = !neg; };
  switch (o) {
    case 0: { Map<Tensor<T> > id; got = id(tx); break; }
    case 1: { Affine<T> f = {a, b}; FunctionMap<Affine<T>, Tensor<T> > map(f); got = map(tx); affine(a0, b0); break; }
    case 2: { auto f = with_args(&f2<T>, a); change(); got = f(tx); affine(a0, T(0)); break; }
    case 3: { const Tensor<T> *pm = &tm; auto f = with_args(&f3<T>, a, pm); change(); got = f(tx); affine(a0, T(0)); y = apply(m, y, false); break; }
    case 4: { auto f = with_args(&f4<T>, a, b, k); change(); got = f(tx); affine(a0, mulz(b0, T((double)k0))); break; }
    case 5: { auto f = with_args(&f5<T>, a, b, k, neg); change(); got = f(tx); affine(a0, mulz(b0, T((double)k0))); if (neg0) for (auto &e : y.v) e = -e; break; }
    case 6: { auto f = with_args(&f6<T>, a, b, k, neg, c); change(); auto g = f; got = g(tx); affine(a0, mulz(b0, T((double)k0))); for (auto &e : y.v) e = (neg0 ? -e : e) + c0; break; }
    default: {
      auto f = with_args(&by_value<T>, tm);
      smash(tm);
      f(tx);
      got = f(tx);
      tm = keep;
      y.v[0] = T(1.0);
      Arr<T> q = m;
      q.v[0] = T(2.0);
      y = apply(q, y, false);
    }
  }
  expect_eq("the result", got, y, NUM);
  expect_eq("the argument afterwards", tx, x);
  expect_eq("the matrix afterwards", keep, m);
}
TEST(closures_R, 360000, 2160000) { closures<double>(S); }
TEST(closures_C, 360000, 2160000) { closures<cd>(S); }
template <class T> void mismatch(Src &S) {
  long r = S.range(1, 5), c = S.range(1, 5), n = S.range(1, 6);
  bool tr = S.coin(), sparse = S.coin();
  if (n == (tr ? r : c)) ++n;
  Tensor<T> m = Tensor<T>::ones(r, c), x = Tensor<T>::ones(n, 1);
  x = reshape(x, n);
  NOTE((sparse ? "sparse" : "dense") << " map " << tname<T>() << (tr ? " transposed " : " ") << r << "x" << c << " on " << n);
  nontrivial();
  must_refuse("applying a map to an argument of the wrong size", [&] { if (sparse) MatrixMap<Sparse<T> >(Sparse<T>(m), tr)(x); else MatrixMap<Tensor<T> >(m, tr)(x); });
}
TEST(mismatch_R, 2400, 14400) { mismatch<double>(S); }
TEST(mismatch_C, 2400, 14400) { mismatch<cd>(S); }
