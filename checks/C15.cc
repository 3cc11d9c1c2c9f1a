#include "sp.h"
using namespace tensor;
const char *pbt::PROPERTY = "C15";
const char *pbt::RULE =
    "Random matrices of 0-30 rows and columns at densities from none to full, with empty rows and columns, built from dense tensors, shuffled coordinate lists (explicit or "
    "deduced dimensions, zero values, repeated coordinates) and compressed rows (explicit zeros included); the compressed form is read directly and compared with a "
    "dense model after every operation; matrices of up to 2^44 columns or 2^17 rows with few entries, compared as coordinate maps; dense matrices with one side of up to 66000. Non-trivial: two or more stored values in a matrix of two or more rows.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "a coordinate given twice with different values keeps one of them", "a coordinate list outside the given dimensions enlarges them (as documented by the maximum taken)",
    "a matrix preallocated with a non-zero capacity is only required to read as zeros", "compressed parts given by the caller are well formed"};

template <class T> void every_element(Src &S, const Sparse<T> &s, const Arr<T> &a) {
  long r = a.d[0], c = a.d[1];
  for (long i = 0; i < r; ++i)
    for (long j = 0; j < c; ++j) {
      T x = s(i, j);
      CHECK(same_num(x, a(i, j)), "element (" << i << "," << j << ") reads " << x << " instead of " << a(i, j));
    }
  if (r && c) {
    long i = S.draw(r), j = S.draw(c);
    CHECK(same_num(s(i - r, j - c), a(i, j)), "element (" << i - r << "," << j - c << ") reads " << s(i - r, j - c) << " instead of " << a(i, j));
  }
  CHECK(s.is_empty() == (r == 0 || c == 0), "is_empty() is wrong");
  if (S.coin(1, 150)) {
    long i = S.elem(std::vector<long>{r, -r - 1, r + 1, r + 100, 0}), j = i == 0 && r ? S.elem(std::vector<long>{c, -c - 1, c + 1, c + 70}) : S.range(-c - 1, c);
    must_refuse("element (" + std::to_string(i) + "," + std::to_string(j) + ")", [&] { T x = s(i, j); (void)x; });
  }
}
template <class T> void finish(Src &S, const Sparse<T> &s, const Arr<T> &a) {
  long nz = s.length();
  if (nz > 1 && a.d[0] > 1) nontrivial();
  expect_eq("full", full(s), a, NUM);
  every_element(S, s, a);
}
inline VKind kind(Src &S) { return S.coin(1, 4) ? V_SPECIAL : V_INT; }

template <class T> void from_dense(Src &S) {
  long r = sp_dim(S), c = sp_dim(S);
  Arr<T> a = gen_sparse<T>(S, r, c, kind(S));
  NOTE("Sparse(tensor) " << tname<T>() << " " << show(a));
  label(r && c ? "from dense" : "from an empty tensor");
  Tensor<T> t = mk(a);
  Sparse<T> s(t);
  expect_sp("Sparse(tensor)", s, a, NUM, true);
  expect_eq("the tensor afterwards", t, a);
  finish(S, s, a);
  bool nan = false;
  for (auto &x : a.v) nan |= x != x;
  if (!nan) {
    CHECK(all_equal(s, parts(a)) && all_equal(s, t) && all_equal(t, s), "a sparse matrix differs from its dense form or from itself");
    if (a.size()) {
      Arr<T> b = a;
      T &x = b.v[S.draw(b.v.size())];
      x = x == T(3.0) ? T(0) : T(3.0);
      CHECK(!all_equal(s, parts(b)) && !all_equal(s, mk(b)) && !all_equal(mk(b), s), "a sparse matrix equals another one " << show(b));
    }
  }
}
TEST(dense_R, 120000, 2000000) { from_dense<double>(S); }
TEST(dense_C, 120000, 2000000) { from_dense<cd>(S); }

template <class T> void from_coords(Src &S) {
  long r = sp_dim(S), c = sp_dim(S);
  if (!r || !c) r = c = 0;
  Arr<T> a = gen_sparse<T>(S, r, c, kind(S));
  struct E { long i, j; T v; };
  std::vector<E> e;
  bool dup = S.coin(1, 4), zeros = S.coin(1, 4);
  std::vector<std::vector<T>> options(a.v.size());
  for (long j = 0; j < c; ++j)
    for (long i = 0; i < r; ++i) {
      T x = a(i, j);
      if (x == T(0)) { if (zeros && S.coin(1, 5)) e.push_back(E{i, j, T(0)}); continue; }
      e.push_back(E{i, j, x});
      while (dup && S.coin(1, 4)) {
        T y = S.coin() ? x : gen_val<T>(S, V_INT);
        e.push_back(E{i, j, y});
        if (!(y == T(0))) options[i + r * j].push_back(y);
      }
    }
  int order = (int)S.draw(3);
  if (order == 0) for (size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[S.draw(k)]);
  if (order == 1) std::reverse(e.begin(), e.end());
  long n = e.size(), mi = 0, mj = 0;
  Indices I(n), J(n);
  Tensor<T> v(n);
  for (long k = 0; k < n; ++k) { I.at(k) = e[k].i; J.at(k) = e[k].j; v.at(k) = e[k].v; mi = std::max(mi, e[k].i + 1); mj = std::max(mj, e[k].j + 1); }
  int dims = (int)S.draw(4);   // 0 both given, 1 deduced, 2 rows given, 3 columns given
  Dims d = {dims == 0 || dims == 2 ? r : mi, dims == 0 || dims == 3 ? c : mj};
  if (dims == 0 && S.coin(1, 4)) { d[0] += S.range(0, 3); d[1] += S.range(0, 3); }
  NOTE("Sparse(rows " << show(I) << " columns " << show(J) << " values " << show(v) << (dims ? " dimensions deduced " : " dimensions ") << show(d));
  label(dims == 0 ? "coordinates, dimensions given" : dims == 1 ? "coordinates, dimensions deduced" : "coordinates, one dimension deduced");
  if (dup) label("repeated coordinates");
  Indices I0 = I, J0 = J;
  Tensor<T> v0 = v;
  Sparse<T> s = dims == 0 ? Sparse<T>(I, J, v, d[0], d[1]) : dims == 1 ? Sparse<T>(I, J, v) : dims == 2 ? Sparse<T>(I, J, v, r) : Sparse<T>(I, J, v, 0, c);
  Arr<T> want(d);
  for (long j = 0; j < std::min(c, d[1]); ++j)
    for (long i = 0; i < std::min(r, d[0]); ++i) {
      want(i, j) = a(i, j);
      T x = s(i, j);
      for (auto &y : options[i + r * j]) if (same_num(x, y)) want(i, j) = y;
    }
  expect_sp("Sparse(coordinates)", s, want, NUM, true);
  expect_eq("row list", ld(I), ld(I0)); expect_eq("column list", ld(J), ld(J0)); expect_eq("values", v, ld(v0), VAL);
  finish(S, s, want);
  if (n && S.coin(1, 150)) {
    bool row = S.coin();
    (row ? I : J).at(S.draw(n)) = -1 - (long)S.draw(3);
    must_refuse("a negative coordinate", [&] { Sparse<T> q(I, J, v, d[0], d[1]); });
  } else if (n && S.coin(1, 150)) {
    Indices K(n + 1);
    for (long k = 0; k <= n; ++k) K.at(k) = 0;
    must_refuse("coordinate lists of different lengths", [&] { if (S.coin()) Sparse<T> q(K, J, v, 9, 9); else Sparse<T> q(I, K, v, 9, 9); });
  }
}
TEST(coords_R, 150000, 2500000) { from_coords<double>(S); }
TEST(coords_C, 150000, 2500000) { from_coords<cd>(S); }

// the operations that give back another matrix
template <class T> Sparse<T> gen_s(Src &S, Arr<T> &a) {
  a = gen_sparse<T>(S, sp_dim(S), sp_dim(S), kind(S));
  if (S.coin(1, 6)) {   // explicit zeros
    std::vector<char> keep(a.v.size());
    for (auto &x : keep) x = S.coin(1, 3);
    return parts(a, &keep);
  }
  return mksp(S, a);
}
inline Arr<double> re(const Arr<cd> &a, bool im) { Arr<double> r(a.d); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = im ? a.v[i].imag() : a.v[i].real(); return r; }
TEST(ops_R, 150000, 2500000) {
  Arr<double> a;
  RSparse s = gen_s(S, a);
  NOTE("RSparse " << show(a) << " with " << s.length() << " stored");
  KeepSp<double> keep(s);
  expect_sp("from parts", s, a);
  expect_sp("transpose", transpose(s), tr(a));
  expect_sp("transpose twice", transpose(transpose(s)), a);
  expect_sp("adjoint", adjoint(s), tr(a));
  expect_sp("real", RSparse(real(s)), a);
  expect_sp("conj", RSparse(conj(s)), a);
  expect_sp("imag", RSparse(imag(s)), Arr<double>(a.d));
  expect_sp("to_complex", to_complex(s), cplx(a));
  CSparse implicit = s;
  expect_sp("implicit conversion to complex", implicit, cplx(a));
  RSparse assigned;
  assigned = s;
  expect_sp("assigned", assigned, a);
  finish(S, s, a);
  finish(S, transpose(s), tr(a));
  keep.check("the matrix");
}
TEST(ops_C, 150000, 2500000) {
  Arr<cd> a;
  CSparse s = gen_s(S, a);
  NOTE("CSparse " << show(a) << " with " << s.length() << " stored");
  KeepSp<cd> keep(s);
  Arr<cd> cja = a;
  for (auto &x : cja.v) x = std::conj(x);
  expect_sp("from parts", s, a);
  expect_sp("transpose", transpose(s), tr(a));
  expect_sp("adjoint", adjoint(s), adj(a));
  expect_sp("adjoint twice", adjoint(adjoint(s)), a);
  expect_sp("conj", conj(s), cja);
  expect_sp("real", real(s), re(a, false));
  expect_sp("imag", imag(s), re(a, true));
  expect_sp("to_complex", CSparse(to_complex(s)), a);
  finish(S, s, a);
  finish(S, adjoint(s), adj(a));
  keep.check("the matrix");
}
template <class T> void special(Src &S) {
  long r = sp_dim(S), c = sp_dim(S);
  NOTE("special matrices " << tname<T>() << " " << r << "x" << c);
  Arr<T> id(Dims{r, c});
  for (long i = 0; i < std::min(r, c); ++i) id(i, i) = T(1);
  Sparse<T> e = Sparse<T>::eye(r, c);
  expect_sp("eye", e, id, NUM, true);
  finish(S, e, id);
  if (r == c || S.coin()) expect_sp("eye(n)", Sparse<T>::eye(r), ident<T>(r), NUM, true);
  Sparse<T> z(r, c);
  expect_sp("zero matrix", z, Arr<T>(Dims{r, c}), NUM, true);
  finish(S, z, Arr<T>(Dims{r, c}));
  Sparse<T> none;
  expect_sp("empty matrix", none, Arr<T>(Dims{0, 0}));
  if (r && c) {
    Sparse<T> cap(r, c, (long)S.draw(r * c + 1));
    expect_eq("full of a preallocated matrix", full(cap), Arr<T>(Dims{r, c}), NUM);
    every_element(S, cap, Arr<T>(Dims{r, c}));
  }
  double density = S.elem(std::vector<double>{0.2, 0.5, 1.0, 0.05});
  Sparse<T> q = Sparse<T>::random(r, c, density);
  well_formed("random", q, true);
  CHECK(q.rows() == r && q.columns() == c, "random has the wrong dimensions");
  finish(S, q, ld(q));
}
TEST(special_R, 40000, 600000) { special<double>(S); }
TEST(special_C, 40000, 600000) { special<cd>(S); }

// matrices of up to 2^40 columns or 2^17 rows
inline Wide<double> part(const Wide<cd> &w, bool im) { Wide<double> r; r.r = w.r; r.c = w.c; for (auto &x : w.e) r.e[x.first] = im ? x.second.imag() : x.second.real(); return r; }
inline Wide<double> part(const Wide<double> &w, bool im) { Wide<double> r = w; if (im) r.e.clear(); return r; }
template <class T> void wide(Src &S, bool tall) {
  bool huge = S.coin();
  Wide<T> w = gen_wide<T>(S, tall, huge), cj = w, t;
  NOTE("wide " << tname<T>() << " " << show(w));
  label(tall ? "many rows" : w.c > 2000000 ? "more than 2^31 columns" : "many columns");
  if (w.e.size() > 1) nontrivial();
  Sparse<T> s = mk(S, w);
  expect_wide("construction", s, w);
  for (auto &x : w.e) {
    long i = x.first.first, j = x.first.second;
    CHECK(s(i, j) == x.second && s(i - w.r, j) == x.second && s(i, j - w.c) == x.second, "element (" << i << "," << j << ") reads " << s(i, j) << " or " << s(i - w.r, j) << " or " << s(i, j - w.c));
  }
  for (int k = 0; k < 6; ++k) {
    long i = coord(S, w.r), j = coord(S, w.c);
    auto it = w.e.find(std::make_pair(i, j));
    CHECK(s(i, j) == (it == w.e.end() ? T(0) : it->second), "element (" << i << "," << j << ") reads " << s(i, j));
  }
  for (auto &x : cj.e) x.second = conj(x.second);
  t.r = w.c; t.c = w.r;
  for (auto &x : w.e) t.e[std::make_pair(x.first.second, x.first.first)] = x.second;
  expect_wide("conj", Sparse<T>(conj(s)), cj);
  expect_wide("real", RSparse(real(s)), part(w, false));
  expect_wide("imag", RSparse(imag(s)), part(w, true));
  CHECK(all_equal(s, s) && all_equal(s, mk(S, w)), "the matrix differs from itself");
  if (!w.e.empty()) {
    Wide<T> v = w;
    auto it = v.e.begin();
    std::advance(it, S.draw(v.e.size()));
    T x = it->second;
    long i = it->first.first, j = it->first.second;
    v.e.erase(it);
    bool moved = S.coin();
    if (moved) { j = (j + 1) % v.c; i = (i + 1) % v.r; v.e[std::make_pair(i, j)] = x + T(40.0); }
    if (!all_equal(mk(S, v), s)) ; else FAIL("a matrix equals another one " << show(v));
  }
  if (w.c < 2000000 && S.coin(1, tall ? 1 : 10)) {
    label("transposed");
    Wide<T> a = t;
    for (auto &x : a.e) x.second = conj(x.second);
    expect_wide("transpose", transpose(s), t);
    expect_wide("adjoint", adjoint(s), a);
    if (S.coin(1, 3)) expect_wide("adjoint twice", adjoint(adjoint(s)), w);
  }
  if (S.coin(1, 4)) {
    Wide<T> e;
    e.r = w.r; e.c = w.c;
    for (long i = 0; i < std::min(w.r, w.c); ++i) e.e[std::make_pair(i, i)] = T(1);
    expect_wide("eye", Sparse<T>::eye(w.r, w.c), e);
  }
  expect_wide("the matrix afterwards", s, w);
}
TEST(wide_R, 15000, 200000) { wide<double>(S, false); }
TEST(wide_C, 15000, 200000) { wide<cd>(S, false); }
TEST(tall_R, 200, 2500) { wide<double>(S, true); }
TEST(tall_C, 200, 2500) { wide<cd>(S, true); }

// dense matrices with one side longer than 16-bit counters
template <class T> void long_dense(Src &S) {
  bool rows = S.coin(1, 3);
  long n = S.coin() ? S.range(32700, 33000) : S.range(65500, 66000), m = S.range(1, 3), r = rows ? n : m, c = rows ? m : n;
  Arr<T> a(Dims{r, c});
  bool full_one = S.coin(1, 4);
  if (full_one) a = gen_arr<T>(S, a.d, V_INT);
  for (int k = (int)S.range(0, 12); k > 0; --k) a(coord(S, r), coord(S, c)) = gen_val<T>(S, V_INT);
  NOTE("Sparse(tensor) " << tname<T>() << " " << r << "x" << c << (full_one ? " full " : " ") << show(a.v));
  label(rows ? "tall and dense" : "wide and dense");
  Tensor<T> t = mk(a);
  Sparse<T> s(t);
  if (s.length() > 1) nontrivial();
  expect_sp("Sparse(tensor)", s, a, NUM, true);
  expect_eq("full", full(s), a, NUM);
  CHECK(all_equal(s, t) && all_equal(t, s), "a sparse matrix differs from its dense form");
  for (int k = 0; k < 6; ++k) { long i = coord(S, r), j = coord(S, c); CHECK(same_num(T(s(i, j)), a(i, j)), "element (" << i << "," << j << ") reads " << s(i, j) << " instead of " << a(i, j)); }
  expect_sp("transpose", transpose(s), tr(a));
  expect_eq("the tensor afterwards", t, a);
}
TEST(long_R, 150, 2500) { long_dense<double>(S); }
TEST(long_C, 150, 2500) { long_dense<cd>(S); }
