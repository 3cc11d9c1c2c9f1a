#include "gen.h"
asm(".weak _ZN6tensor4xgenE");   // links also when the library does not define it
using namespace tensor;
const char *pbt::PROPERTY = "C14";
const char *pbt::RULE =
    "Random starts, ends and steps (negative starts, steps larger than the span, exact and inexact divisions), index lists of length 0-8 and now and then thousands, "
    "generated lists of 1-6 elements, grids of 0-60 points, rarely 20000, between scalar or tensor end points of rank 1-9, real and complex, equal or "
    "reversed ends. Non-trivial: the result has at least two elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"steps are positive", "grid values are compared up to 8 units in the last place of the larger end point and of the span; the first point exactly", "a grid between tensors with a single element may drop their dimensions of size one"};

TEST(ranges, 800000, 4800000) {
  long lo = S.coin(1, 8) ? 1000000000000L : S.sint(20), hi = lo + S.range(-3, 40), step = S.range(1, 9);
  if (S.coin(1, 10)) step = S.range(1, 60);
  if (S.coin(1, 8)) {   // spans that a double cannot represent
    long n = S.range(0, 12);
    step = (1L << S.range(40, 58)) + S.sint(3);
    lo = S.coin() ? S.sint(3) : -(1L << S.range(50, 61)) + S.sint(3);
    hi = lo + step * std::min(n, (1L << 62) / step - 1) + S.range(-2, 2);
    label("long span");
  }
  if (S.coin(1, 4000)) { step = S.range(1, 9); hi = lo + step * S.range(32000, 140000) + S.range(-2, 2); label("many elements"); }
  Dims want;
  for (long x = lo; x <= hi; x += step) want.push_back(x);
  NOTE("range " << lo << ":" << step << ":" << hi);
  label(want.empty() ? "empty" : want.back() == hi ? "end included" : "end skipped");
  if (want.size() >= 2) nontrivial();
  expect_eq("Indices::range", ld(Indices::range(lo, hi, step)), want);
  expect_eq("iota", ld(iota(lo, hi, step)), want);
  if (step == 1) { expect_eq("Indices::range", ld(Indices::range(lo, hi)), want); expect_eq("iota", ld(iota(lo, hi)), want); }
}
static Dims lst(Src &S, long maxlen, long mag) { Dims l; long n = S.coin(1, 3000) ? S.range(100, 5000) : S.range(0, maxlen); for (long i = 0; i < n; ++i) l.push_back(S.coin(1, 12) ? (1L << 52) + S.sint(9) : S.sint(mag)); return l; }
TEST(lists, 800000, 4800000) {
  Dims a = lst(S, 8, 20), b = lst(S, 8, 20), ab = a;
  ab.insert(ab.end(), b.begin(), b.end());
  NOTE("lists " << show(a) << " " << show(b));
  if (ab.size() >= 2) nontrivial();
  Indices ia = ix(a), ib = ix(b);
  expect_eq("concatenation", ld(ia << ib), ab);
  expect_eq("concatenation with itself", ld(ia << ia), [&] { Dims c = a; c.insert(c.end(), a.begin(), a.end()); return c; }());
  expect_eq("left operand", ld(ia), a); expect_eq("right operand", ld(ib), b);
  RTensor t = index_to_tensor(ia);
  Arr<double> want(Dims{(long)a.size()});
  for (size_t i = 0; i < a.size(); ++i) want.v[i] = (double)a[i];
  expect_eq("index_to_tensor", t, want);
  Dims d;
  for (long x : a) d.push_back(std::labs(x) % 6);
  CHECK(ix(d).total_size() == prod(d), "total_size of " << show(d) << " is " << ix(d).total_size() << " instead of " << prod(d));
  std::vector<double> sv(want.v);
  expect_eq("tensor from std::vector", RTensor(sv), want);
  Indices io = ia << (igen << 7 << 8);
  Dims w = a; w.push_back(7); w.push_back(8);
  expect_eq("concatenation with a generated list", ld(io), w);
}
static const void *volatile xgen_address = (const void *)&xgen;   // null when the library does not define it
TEST(generators, 800000, 4800000) {
  long n = S.range(1, 6);
  Dims x; std::vector<double> r; std::vector<cd> c;
  for (long i = 0; i < 6; ++i) { x.push_back(S.sint(1000)); r.push_back(gen_num(S, V_SPECIAL)); c.push_back(cd(gen_num(S, V_SPECIAL), gen_num(S, V_SPECIAL))); }
  x.resize(n);
  NOTE("generator of " << n << ": " << show(x) << show(r) << show(c));
  if (n >= 2) nontrivial();
  Dims xx = x; xx.resize(6);
  Arr<double> wr(Dims{n}); Arr<cd> wc(Dims{n});
  for (long i = 0; i < n; ++i) { wr.v[i] = r[i]; wc.v[i] = c[i]; }
  Indices gi; RTensor gr, gx; CTensor gc;
  switch (n) {
    case 1: gi = igen << xx[0]; gr = rgen << r[0]; gc = cgen << c[0]; gx = xgen << r[0]; break;
    case 2: gi = igen << xx[0] << xx[1]; gr = rgen << r[0] << r[1]; gc = cgen << c[0] << c[1]; gx = xgen << r[0] << r[1]; break;
    case 3: gi = igen << xx[0] << xx[1] << xx[2]; gr = rgen << r[0] << r[1] << r[2]; gc = cgen << c[0] << c[1] << c[2]; gx = xgen << r[0] << r[1] << r[2]; break;
    case 4: gi = igen << xx[0] << xx[1] << xx[2] << xx[3]; gr = rgen << r[0] << r[1] << r[2] << r[3]; gc = cgen << c[0] << c[1] << c[2] << c[3]; gx = gen(r[0]) << r[1] << r[2] << r[3]; break;
    case 5: gi = igen << xx[0] << xx[1] << xx[2] << xx[3] << xx[4]; gr = rgen << r[0] << r[1] << r[2] << r[3] << r[4]; gc = cgen << c[0] << c[1] << c[2] << c[3] << c[4]; gx = xgen << r[0] << r[1] << r[2] << r[3] << r[4]; break;
    default: gi = igen << xx[0] << xx[1] << xx[2] << xx[3] << xx[4] << xx[5]; gr = rgen << r[0] << r[1] << r[2] << r[3] << r[4] << r[5]; gc = cgen << c[0] << c[1] << c[2] << c[3] << c[4] << c[5]; gx = xgen << r[0] << r[1] << r[2] << r[3] << r[4] << r[5];
      { Arr<double> w2 = wr; w2.d = Dims{2, 3}; expect_eq("RTensor(rgen,dims)", RTensor(rgen << r[0] << r[1] << r[2] << r[3] << r[4] << r[5], igen << 2 << 3), w2); }
  }
  expect_eq("igen", ld(gi), x); expect_eq("rgen", gr, wr); expect_eq("cgen", gc, wc); expect_eq("xgen", gx, wr);
  CHECK(xgen_address, "xgen is declared, but not defined");
}
TEST(generator_size_refused, 1600, 9600) {
  long d = S.range(0, 4), e = S.range(0, 3);
  if (d * e == 3) DISCARD();
  nontrivial();
  std::string w = "RTensor of three generated values with dims " + show(Dims{d, e});
  NOTE(w);
  must_refuse(w, [&] { RTensor t(rgen << 1.0 << 2.0 << 3.0, ix(Dims{d, e})); });
}
static double gen_end(Src &S) {
  switch (S.draw(5)) { case 0: return (double)S.sint(9); case 1: return S.unit() * 2 - 1; case 2: return (S.unit() - 0.5) * std::pow(10.0, (double)S.sint(12)); case 3: return 0.0; default: return 1e5 + S.unit(); }
}
template <class T> T gen_endT(Src &S);
template <> double gen_endT<double>(Src &S) { return gen_end(S); }
template <> cd gen_endT<cd>(Src &S) { double a = gen_end(S), b = gen_end(S); return cd(a, b); }
template <class T> void check_grid(const std::string &w, const Tensor<T> &r, const Arr<T> &a, const Arr<T> &b, long n, bool scalar) {
  Dims want = a.d; want.push_back(n);
  Dims got = dims_of(r.dimensions());
  if (scalar) want = Dims{n};
  CHECK(got == want || (a.size() == 1 && got == Dims{n}), w << ": dimensions " << show(got) << " instead of " << show(want));
  CHECK(r.size() == a.size() * n, w << ": size " << r.size());
  for (long i = 0; i < n; ++i)
    for (long j = 0; j < a.size(); ++j) {
      T x = r[i * a.size() + j];
      if (i == 0) { CHECK(same_num(x, a.v[j]), w << ": first point is " << x << " instead of " << a.v[j]); continue; }
      T y = a.v[j] + (b.v[j] - a.v[j]) * ((double)i / (double)(n - 1));
      double tol = 8 * 2.3e-16 * (std::abs(a.v[j]) + std::abs(b.v[j]) + std::abs(b.v[j] - a.v[j]));
      CHECK(std::abs(x - y) <= tol, w << ": point " << i << " of element " << j << " is " << x << " instead of " << y);
    }
}
template <class T> void grid(Src &S) {
  bool scalar = S.coin();
  long n = S.weighted({1, 6}) == 0 ? S.range(0, 2) : S.range(2, S.coin(1, 5) ? (S.coin(1, 200) ? 20000 : 60) : 9);
  Dims d = scalar ? Dims{1} : S.coin(1, 60) ? gen_deep(S, 5, 9, false) : gen_dims(S, 1, 4, 4, false, 30);
  if (n > 1000 && prod(d) > 12) d = Dims{2, 1, 2};
  Arr<T> a(d), b(d);
  for (long i = 0; i < a.size(); ++i) { a.v[i] = gen_endT<T>(S); b.v[i] = S.coin(1, 8) ? a.v[i] : gen_endT<T>(S); }
  NOTE("linspace " << (scalar ? "scalars " : "tensors ") << show(a) << " to " << show(b) << " n=" << n);
  label((scalar ? "scalar" : "rank" + std::to_string(d.size())) + (n == 1 ? " n=1" : n == 0 ? " n=0" : ""));
  if (n >= 2) nontrivial();
  if (scalar) check_grid("linspace", Tensor<T>(linspace(a.v[0], b.v[0], n)), a, b, n, true);
  else {
    Tensor<T> ta = mk(a), tb = mk(b);
    check_grid("linspace", Tensor<T>(linspace(ta, tb, n)), a, b, n, false);
    expect_eq("first end point", ta, a); expect_eq("last end point", tb, b);
  }
  if (S.coin(1, 20)) check_grid("linspace with default size", Tensor<T>(scalar ? linspace(a.v[0], b.v[0]) : linspace(mk(a), mk(b))), a, b, 100, scalar);
}
TEST(grid_R, 320000, 1920000) { grid<double>(S); }
TEST(grid_C, 320000, 1920000) { grid<cd>(S); }
