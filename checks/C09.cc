#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C09";
const char *pbt::RULE =
    "Random tensors of rank 1-11 (dimensions 0-7 with many ones, now and then thousands of elements), real and complex, elements all different or special "
    "values; every reshaping operation with random targets and index pairs, compared bit by bit with a multi-index model. Non-trivial: two or more elements "
    "and the operation moves or re-dimensions something.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"a tensor all of whose dimensions are one squeezes to one dimension of size one (a tensor must have a dimension)"};

template <class T> Arr<T> gen_any(Src &S, const Dims &d) { return S.coin(2, 3) ? tag_arr<T>(d) : gen_arr<T>(S, d, V_SPECIAL); }
inline Dims gen_d(Src &S, long rmin, long rmax) {
  if (S.coin(1, 1500)) return gen_huge(S, rmin, rmax);
  if (rmax == 6 && rmin < 6 && S.coin(1, 50)) return gen_deep(S, 7, 11);
  if (S.coin(1, 40)) return gen_dims(S, rmin, std::max(rmin, std::min(rmax, 3L)), 70, false, 6000);
  Dims d;
  long r = S.range(rmin, rmax), p = 1;
  for (long i = 0; i < r; ++i) {
    long n = S.coin(1, 3) ? 1 : gen_size(S, p > 60 ? 2 : 7, true);
    d.push_back(n);
    p *= n ? n : 1;
  }
  return d;
}
template <class T> Arr<T> permuted(const Arr<T> &a, long i, long j) {
  Arr<T> r;
  r.d = a.d;
  std::swap(r.d[i], r.d[j]);
  r.v.resize(a.v.size());
  if (a.v.empty()) return r;
  Dims k(a.d.size(), 0);
  do {
    Dims q = k;
    std::swap(q[i], q[j]);
    r.v[offset(q, r.d)] = a.v[offset(k, a.d)];
  } while (next_index(k, a.d));
  return r;
}
// a random factorisation of n with r factors (n > 0) in random order
inline Dims factor(Src &S, long n, long r) {
  Dims f(r, 1);
  for (long p = 2; n > 1;) {
    if (n % p) { ++p; if (p * p > n) p = n; continue; }
    f[S.draw(r)] *= p;
    n /= p;
    if (p > 1 && n > 1 && n % p && p * p > n) p = n;
  }
  return f;
}
template <class T> const Tensor<T> do_reshape(Src &S, const Tensor<T> &t, const Dims &d) {
  switch (S.draw(3)) {
    case 1: { Tensor<T> r(t); r.reshape(ix(d)); return r; }
    case 2:
      switch (d.size()) {
        case 1: return reshape(t, d[0]);
        case 2: return reshape(t, d[0], d[1]);
        case 3: return reshape(t, d[0], d[1], d[2]);
        case 4: return reshape(t, d[0], d[1], d[2], d[3]);
        case 5: return reshape(t, d[0], d[1], d[2], d[3], d[4]);
        case 6: return reshape(t, d[0], d[1], d[2], d[3], d[4], d[5]);
      }
    default: return reshape(t, ix(d));
  }
}
template <class T> struct Keep {   // the argument and a copy of it stay as they were
  Arr<T> a; const Tensor<T> &t; Tensor<T> copy;
  Keep(const Arr<T> &aa, const Tensor<T> &tt) : a(aa), t(tt), copy(tt) {}
  void check() { expect_eq("the argument afterwards", t, a); expect_eq("a copy of the argument afterwards", copy, a); }
};
template <class T> void touched(Tensor<T> r) { if (r.size()) r.at(r.size() - 1) = T(-77.0); }

template <class T> void t_reshape(Src &S) {
  Dims d = gen_d(S, 1, 6);
  Arr<T> a = gen_any<T>(S, d);
  long r = S.coin(1, 40) ? S.range(7, 11) : S.range(1, 6);
  Dims e;
  if (a.size()) e = factor(S, a.size(), r);
  else { e = gen_d(S, r, r); if (prod(e)) e[S.draw(r)] = 0; }
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  NOTE("reshape " << tname<T>() << " " << show(a) << " to " << show(e));
  label("reshape to rank " + std::to_string(r));
  if (a.size() > 1 && e != d) nontrivial();
  Arr<T> want = a;
  want.d = e;
  Tensor<T> out = do_reshape(S, t, e);
  expect_eq("reshape", out, want);
  touched(out);
  keep.check();
  // back again
  expect_eq("reshaping back", reshape(do_reshape(S, t, e), ix(d)), a);
  Arr<T> f = a;
  f.d = Dims{a.size()};
  expect_eq("flatten", flatten(t), f);
  touched<T>(flatten(t));
  keep.check();
  if (S.coin(1, 40)) {
    Dims w = gen_d(S, 1, 6);
    if (prod(w) != a.size()) {
      NOTE("wrong target " << show(w));
      must_refuse("reshape to " + show(w), [&] { do_reshape(S, t, w); });
    }
  }
}
TEST(reshape_R, 120000, 2000000) { t_reshape<double>(S); }
TEST(reshape_C, 120000, 2000000) { t_reshape<cd>(S); }

template <class T> void t_squeeze(Src &S) {
  Dims d = gen_d(S, 1, 6);
  Arr<T> a = gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  NOTE("squeeze " << tname<T>() << " " << show(a));
  Arr<T> want = a;
  want.d.clear();
  for (long n : d) if (n != 1) want.d.push_back(n);
  if (want.d.empty()) want.d.push_back(1);
  label("squeeze removes " + std::to_string(d.size() - want.d.size()));
  if (a.size() > 1 && want.d != d) nontrivial();
  Tensor<T> out = squeeze(t);
  expect_eq("squeeze", out, want);
  expect_eq("squeeze of a squeezed tensor", squeeze(out), want);
  touched(out);
  keep.check();
}
TEST(squeeze_R, 100000, 1500000) { t_squeeze<double>(S); }
TEST(squeeze_C, 100000, 1500000) { t_squeeze<cd>(S); }

template <class T> void t_permute(Src &S) {
  Dims d = gen_d(S, 1, 6);
  long r = d.size(), i = S.draw(r), j = S.draw(r);
  bool defaults = S.coin(1, 8);
  if (defaults) { i = 0; j = r - 1; }
  long pi = S.coin(1, 3) ? i - r : i, pj = S.coin(1, 3) ? j - r : j;
  Arr<T> a = gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  NOTE("permute " << tname<T>() << " " << show(a) << " indices " << pi << "," << pj << (defaults ? " (defaults)" : ""));
  label("permute rank " + std::to_string(r));
  label("permute at distance " + std::to_string(std::labs(i - j)) + (d[i] == d[j] ? " equal sizes" : ""));
  if (a.size() > 1 && i != j) nontrivial();
  Tensor<T> out = defaults ? permute(t) : permute(t, pi, pj);
  expect_eq("permute", out, permuted(a, i, j));
  expect_eq("permute twice", permute(out, j, i), a);
  touched(out);
  keep.check();
  if (S.coin(1, 200)) {
    long bad = S.coin() ? r + S.draw(3) : -r - 1 - (long)S.draw(3);
    must_refuse("permute with index " + std::to_string(bad), [&] { if (S.coin()) permute(t, bad, j); else permute(t, i, bad); });
  }
}
TEST(permute_R, 150000, 2500000) { t_permute<double>(S); }
TEST(permute_C, 150000, 2500000) { t_permute<cd>(S); }

template <class T> void t_transpose(Src &S) {
  Dims d = S.coin(1, 4) ? Dims{S.range(0, 70), S.range(0, 70)} : gen_d(S, 2, 2);
  Arr<T> a = gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  NOTE("transpose, adjoint " << tname<T>() << " " << show(a));
  label(d[0] == d[1] ? "transpose square" : "transpose rectangular");
  if (d[0] > 1 && d[1] > 1) nontrivial();
  Tensor<T> x = transpose(t), y = adjoint(t);
  expect_eq("transpose", x, tr(a));
  expect_eq("adjoint", y, adj(a), VAL);
  expect_eq("transpose twice", transpose(x), a);
  expect_eq("adjoint twice", adjoint(y), a, VAL);
  touched(x); touched(y);
  keep.check();
  if (S.coin(1, 300)) {
    Dims w = gen_d(S, 3, 5);
    must_refuse("transpose of rank " + std::to_string(w.size()), [&] { transpose(mk(tag_arr<T>(w))); });
    must_refuse("adjoint of rank " + std::to_string(w.size()), [&] { adjoint(mk(tag_arr<T>(w))); });
  }
}
TEST(transpose_R, 60000, 1000000) { t_transpose<double>(S); }
TEST(transpose_C, 60000, 1000000) { t_transpose<cd>(S); }

template <class T> void t_change(Src &S) {
  Dims d = gen_d(S, 1, 6);
  long r = d.size(), i = S.draw(r), n = S.coin(1, 20) ? 0 : S.coin() ? d[i] + S.sint(3) : S.range(0, 9);
  if (n < 0) n = 0;
  Arr<T> a = gen_any<T>(S, d);
  Tensor<T> t = mk(a);
  Keep<T> keep(a, t);
  long pi = S.coin(1, 3) ? i - r : i;
  NOTE("change_dimension " << tname<T>() << " " << show(a) << " index " << pi << " to " << n);
  label(n > d[i] ? "dimension grows" : n < d[i] ? "dimension shrinks" : "dimension stays");
  if (a.size() > 1 && n != d[i]) nontrivial();
  Dims e = d;
  e[i] = n;
  Arr<T> want(e);
  if (want.size()) {
    Dims k(r, 0);
    do if (k[i] < d[i]) want.v[offset(k, e)] = a.v[offset(k, d)]; while (next_index(k, e));
  }
  Tensor<T> out = change_dimension(t, (int)pi, n);
  expect_eq("change_dimension", out, want);
  touched(out);
  keep.check();
  if (n >= d[i]) expect_eq("growing and shrinking back", change_dimension(change_dimension(t, (int)pi, n), (int)i, d[i]), a);
  if (S.coin(1, 200)) must_refuse("change_dimension of index " + std::to_string(r), [&] { change_dimension(t, (int)(S.coin() ? r : -r - 1), n); });
}
TEST(change_R, 120000, 2000000) { t_change<double>(S); }
TEST(change_C, 120000, 2000000) { t_change<cd>(S); }
