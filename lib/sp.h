// Sparse matrices: models, generators, well-formedness.
#ifndef PBT_SP_H
#define PBT_SP_H
#include "gen.h"
#include <map>
namespace pbt {
// every row of the compressed form, checked for consistency
template <class T> void well_formed(const std::string &what, const tensor::Sparse<T> &s, bool no_zeros = false) {
  const tensor::Indices &d = s.priv_dims(), &rs = s.priv_row_start(), &c = s.priv_column();
  const tensor::Tensor<T> &v = s.priv_data();
  CHECK(d.size() == 2, what << ": " << d.size() << " dimensions");
  CHECK(s.rows() == d[0] && s.columns() == d[1] && s.dimension(0) == d[0] && s.dimension(1) == d[1], what << ": inconsistent dimensions");
  CHECK(rs.size() == d[0] + 1, what << ": " << rs.size() << " row offsets for " << d[0] << " rows");
  CHECK(rs[0] == 0, what << ": the first row offset is " << rs[0]);
  for (long i = 0; i < d[0]; ++i) CHECK(rs[i + 1] >= rs[i], what << ": the row offsets decrease " << show(rs));
  CHECK(rs[d[0]] == c.size() && c.size() == v.size(), what << ": the row offsets end at " << rs[d[0]] << " with " << c.size() << " columns and " << v.size() << " values");
  CHECK(s.length() == c.size(), what << ": length() is " << s.length() << " instead of " << c.size());
  for (long i = 0; i < d[0]; ++i)
    for (long k = rs[i]; k < rs[i + 1]; ++k) {
      CHECK(c[k] >= 0 && c[k] < d[1], what << ": column " << c[k] << " in a matrix with " << d[1] << " columns");
      CHECK(k == rs[i] || c[k] > c[k - 1], what << ": columns do not increase in row " << i << " " << show(c));
      if (no_zeros) CHECK(!(v[k] == T(0)), what << ": a zero is stored at row " << i << " column " << c[k]);
    }
}
template <class T> Arr<T> ld(const tensor::Sparse<T> &s) {   // from the compressed form
  Arr<T> a(Dims{s.rows(), s.columns()});
  for (long i = 0; i < s.rows(); ++i)
    for (long k = s.priv_row_start()[i]; k < s.priv_row_start()[i + 1]; ++k) a(i, s.priv_column()[k]) = s.priv_data()[k];
  return a;
}
template <class T> void expect_sp(const std::string &what, const tensor::Sparse<T> &s, const Arr<T> &want, Eq m = NUM, bool no_zeros = false) {
  well_formed(what, s, no_zeros);
  expect_eq(what, ld(s), want, m);
}
// compressed rows written down by hand (optionally with explicit zeros)
template <class T> tensor::Sparse<T> parts(const Arr<T> &a, const std::vector<char> *keep = 0) {
  tensor::Indices rs(a.d[0] + 1);
  std::vector<long> c;
  std::vector<T> v;
  rs.at(0) = 0;
  for (long i = 0; i < a.d[0]; ++i) {
    for (long j = 0; j < a.d[1]; ++j)
      if (!(a(i, j) == T(0)) || (keep && (*keep)[i + a.d[0] * j])) { c.push_back(j); v.push_back(a(i, j)); }
    rs.at(i + 1) = (long)c.size();
  }
  Arr<T> d(Dims{(long)v.size()});
  d.v = v;
  return tensor::Sparse<T>(ix(a.d), rs, ix(c), mk(d));
}
template <class T> tensor::Sparse<T> mksp(Src &S, const Arr<T> &a) { return S.coin() ? parts(a) : tensor::Sparse<T>(mk(a)); }
// dense model of a sparse matrix
template <class T> Arr<T> gen_sparse(Src &S, long r, long c, VKind k) {
  Arr<T> a(Dims{r, c});
  int density = (int)S.draw(6);   // 0: empty ... 4: dense, 5: whole rows / columns empty
  std::vector<char> row(r, 1), col(c, 1);
  if (density == 5) { for (auto &x : row) x = S.coin(); for (auto &x : col) x = S.coin(2, 3); }
  for (long j = 0; j < c; ++j)
    for (long i = 0; i < r; ++i)
      if (row[i] && col[j] && (density == 5 || S.coin(density, 4))) a(i, j) = gen_val<T>(S, k);
  return a;
}
inline long sp_dim(Src &S) { return S.coin(1, 15) ? 0 : S.coin(1, 25) ? S.range(1, 40) : S.coin(1, 150) ? S.range(41, 300) : S.range(1, 6); }
template <class T> struct KeepSp {
  Arr<T> a; const tensor::Sparse<T> &t; tensor::Sparse<T> copy;
  KeepSp(const tensor::Sparse<T> &tt) : a(ld(tt)), t(tt), copy(tt) {}
  void check(const char *w) { expect_sp(std::string(w) + " afterwards", t, a, VAL); expect_sp(std::string("a copy of ") + w + " afterwards", copy, a, VAL); }
};
// Matrices with very many rows or columns and few stored values; the model is a map from coordinates.
template <class T> struct Wide {
  long r, c;
  std::map<std::pair<long, long>, T> e;   // ordered by row, then column
  void add(long i, long j, T x) { T &y = e[std::make_pair(i, j)]; y += x; }
};
inline long big_dim(Src &S, bool huge) {
  return huge && S.coin() ? S.elem(std::vector<long>{2147483648L, 4294967296L + 5, 1099511627776L, 2147483647L, 65536L * 65536 * 16}) + S.range(-2, 2)
                          : S.elem(std::vector<long>{65536, 70000, 32768, 131072, 46341}) + S.range(-2, 2);
}
inline long coord(Src &S, long n) {
  switch (S.draw(4)) {
    case 0: return S.range(0, std::min(n - 1, 3L));
    case 1: return n - 1 - S.range(0, std::min(n - 1, 3L));
    case 2: return std::min(n - 1, S.elem(std::vector<long>{32767, 32768, 65535, 65536, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967297L}));
    default: return (long)(S.unit() * (double)(n - 1));
  }
}
template <class T> Wide<T> gen_wide(Src &S, bool tall, bool huge) {
  Wide<T> w;
  w.r = tall ? big_dim(S, false) : S.range(1, 5);
  w.c = tall ? S.range(1, 5) : big_dim(S, huge);
  for (long n = S.range(0, 12); n > 0; --n) { T x = gen_val<T>(S, V_INT); if (!(x == T(0))) { long i = coord(S, w.r), j = coord(S, w.c); w.e[std::make_pair(i, j)] = x; } }
  return w;
}
template <class T> tensor::Sparse<T> mk(Src &S, const Wide<T> &w) {
  long n = w.e.size(), k = 0;
  tensor::Indices I(n), J(n), rs(w.r + 1);
  Arr<T> v(Dims{n});
  std::fill(rs.begin(), rs.end(), 0);
  bool rev = S.coin(), byparts = S.coin();
  for (auto &x : w.e) { long q = rev && !byparts ? n - 1 - k : k; I.at(q) = x.first.first; J.at(q) = x.first.second; v.v[q] = x.second; ++k; }
  if (!byparts) return tensor::Sparse<T>(I, J, mk(v), w.r, w.c);
  k = 0;
  auto it = w.e.begin();
  for (long i = 0; i < w.r; ++i) { while (it != w.e.end() && it->first.first == i) { ++it; ++k; } rs.at(i + 1) = k; }
  return tensor::Sparse<T>(ix(Dims{w.r, w.c}), rs, J, mk(v));
}
template <class T> std::string show(const Wide<T> &w) {
  std::ostringstream o;
  o << w.r << "x" << w.c << " {";
  for (auto &x : w.e) o << "(" << x.first.first << "," << x.first.second << ")=" << x.second << " ";
  return o.str() + "}";
}
template <class T> void expect_wide(const std::string &what, const tensor::Sparse<T> &s, const Wide<T> &w) {
  well_formed(what, s);
  CHECK(s.rows() == w.r && s.columns() == w.c, what << ": " << s.rows() << "x" << s.columns() << " instead of " << w.r << "x" << w.c);
  Wide<T> got;
  got.r = w.r; got.c = w.c;
  const tensor::Indices &rs = s.priv_row_start();
  for (long i = 0; i < w.r; ++i)
    for (long k = rs[i]; k < rs[i + 1]; ++k) if (!(s.priv_data()[k] == T(0))) got.e[std::make_pair(i, s.priv_column()[k])] = s.priv_data()[k];
  Wide<T> want = w;
  for (auto it = want.e.begin(); it != want.e.end();) if (it->second == T(0)) it = want.e.erase(it); else ++it;
  if (!(got.e == want.e)) FAIL(what << ": " << show(got) << " instead of " << show(want));
}
}
#endif
