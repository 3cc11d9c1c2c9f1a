#include "sp.h"
#include <tensor/io.h>
#include <iomanip>
using namespace tensor;
const char *pbt::PROPERTY = "C32";
const char *pbt::RULE =
    "Random vectors (long, int, bool, double, complex, StaticVector), index lists, tensors of rank 0-6 and sparse matrices, empty ones included, with ordinary and special values, printed on streams of random precision, notation, sign, case "
    "and fill settings. The numbers of the text are extracted and compared one by one with the elements printed alone, and read back. Non-trivial: two or more elements.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"separators and brackets are not part of the property except the line ends of the matrix form", "the matrix form is for vectors and matrices; it refuses higher ranks",
    "the stream has the classic locale and no field width set"};

struct Fmt { int precision, notation; bool pos, upper, point, fill; };
static Fmt gen_fmt(Src &S) {
  Fmt f;
  f.precision = S.coin(1, 3) ? 17 : S.coin(1, 3) ? 6 : (int)S.range(1, 20);
  f.notation = (int)S.weighted({4, 1, 1});
  f.pos = S.coin(1, 6); f.upper = S.coin(1, 6); f.point = S.coin(1, 8); f.fill = S.coin(1, 8);
  return f;
}
static void set(std::ostream &o, const Fmt &f) {
  o.precision(f.precision);
  if (f.notation == 1) o << std::scientific;
  if (f.notation == 2) o << std::fixed;
  if (f.pos) o << std::showpos;
  if (f.upper) o << std::uppercase;
  if (f.point) o << std::showpoint;
  if (f.fill) o.fill('#');
}
template <class X> std::string alone(const X &x, const Fmt &f) { std::ostringstream o; set(o, f); o << x; return o.str(); }
static std::vector<std::string> tokens(const std::string &s) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : s) {
    if (isalnum((unsigned char)c) || c == '+' || c == '-' || c == '.') cur += c;
    else if (!cur.empty()) { r.push_back(cur); cur.clear(); }
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
static void brackets(const std::string &s) {
  std::string st;
  for (char c : s) {
    if (c == '[' || c == '(') st += c;
    if (c == ']' || c == ')') { if (st.empty() || st.back() != (c == ']' ? '[' : '(')) FAIL("brackets do not match in " << s); st.pop_back(); }
  }
  if (!st.empty()) FAIL("brackets do not match in " << s);
}
static bool back(double x, const std::string &t, const Fmt &f) {
  char *end;
  double y = strtod(t.c_str(), &end);
  if (*end) return false;
  if (std::isnan(x)) return std::isnan(y);
  if (std::isinf(x)) return x == y;
  if (std::signbit(x) != std::signbit(y)) return false;
  if (std::isinf(y)) return std::abs(x) > 9e307;   // rounded beyond the largest number
  if (f.notation == 2) return std::abs(x - y) <= 0.5000001 * std::pow(10.0, -f.precision) + 4e-16 * std::abs(x);
  int digits = f.notation == 1 ? f.precision + 1 : f.precision;
  if (digits >= 17) return x == y;
  return std::abs(x - y) <= 0.5000001 * std::pow(10.0, 1 - digits) * std::abs(x) + 4e-16 * std::abs(x) + 5e-324;
}
// the numbers a value is made of
inline void parts_of(std::vector<double> &v, double x) { v.push_back(x); }
inline void parts_of(std::vector<double> &v, cd x) { v.push_back(x.real()); v.push_back(x.imag()); }
inline void parts_of(std::vector<double> &v, long x) { v.push_back((double)x); }

// text (one element after the other) against the expected numbers; integers before `ints`
static void expect_numbers(const std::string &what, const std::string &text, const std::vector<long> &ints, const std::vector<double> &vals, const Fmt &f) {
  std::vector<std::string> t = tokens(text);
  if (t.size() != ints.size() + vals.size()) FAIL(what << ": " << t.size() << " numbers instead of " << ints.size() + vals.size() << " in " << text);
  for (size_t i = 0; i < ints.size(); ++i)
    if (t[i] != alone(ints[i], f)) FAIL(what << ": " << t[i] << " instead of " << ints[i] << " at position " << i << " of " << text);
  for (size_t i = 0; i < vals.size(); ++i) {
    const std::string &g = t[ints.size() + i];
    std::string w = alone(vals[i], f);
    if (g != w) FAIL(what << ": " << g << " instead of " << w << " for element " << i << " in " << text);
    if (!back(vals[i], g, f)) FAIL(what << ": " << g << " does not read back as " << vals[i]);
  }
  brackets(text);
}
// print into a stream with other output before and after, checking that the stream comes out as it was
template <class X> std::string print(const X &x, const Fmt &f) {
  std::ostringstream o, ref;
  set(o, f);
  set(ref, f);
  o << 1.0 / 3 << "<<" << x << ">>" << 2.0 / 3 << ' ' << 12345 << ' ' << true;
  ref << 2.0 / 3 << ' ' << 12345 << ' ' << true;
  if (!o.good()) FAIL("printing leaves the stream in error");
  std::string s = o.str();
  size_t a = s.find("<<"), b = s.rfind(">>");
  if (a == s.npos || b == s.npos) FAIL("text around the object is lost: " << s);
  if (s.substr(b + 2) != ref.str()) FAIL("later output of the stream changes from " << ref.str() << " to " << s.substr(b + 2));
  if (o.flags() != ref.flags() || o.precision() != ref.precision() || o.fill() != ref.fill() || o.width() != ref.width()) FAIL("the format of the stream is changed by printing");
  return s.substr(a + 2, b - a - 2);
}

template <class T> void tensors(Src &S) {
  Dims d = S.coin(1, 10) ? Dims() : gen_shape(S);
  Arr<T> a = d.empty() ? Arr<T>(d) : gen_arr<T>(S, d, gen_vkind(S, true));
  Fmt f = gen_fmt(S);
  NOTE(tname<T>() << " tensor " << show(a) << " precision " << f.precision << " notation " << f.notation);
  if (a.size() > 1) nontrivial();
  label("rank " + std::to_string(d.size()) + (a.size() ? "" : " empty"));
  Tensor<T> t = d.empty() ? Tensor<T>() : mk(a), copy = t;
  std::vector<double> v;
  for (auto &x : a.v) parts_of(v, x);
  std::string s = print(t, f);
  expect_numbers("tensor", s, d, v, f);
  if (print(t, f) != s || print(copy, f) != s) FAIL("printing twice gives different texts");
  expect_eq("the tensor afterwards", t, a, VAL);
  // the dimensions alone
  expect_numbers("dimensions", print(t.dimensions(), f), d, {}, f);
}
TEST(tensor_R, 60000, 1500000) { tensors<double>(S); }
TEST(tensor_C, 60000, 1500000) { tensors<cd>(S); }

template <class E> E velt(Src &S, VKind k);
template <> long velt<long>(Src &S, VKind) { return S.coin(1, 5) ? (long)S.bits64() : S.sint(1000); }
template <> int velt<int>(Src &S, VKind) { return S.coin(1, 5) ? (int)S.bits64() : (int)S.sint(1000); }
template <> bool velt<bool>(Src &S, VKind) { return S.coin(); }
template <> double velt<double>(Src &S, VKind k) { return gen_val<double>(S, k); }
template <> cd velt<cd>(Src &S, VKind k) { return gen_val<cd>(S, k); }
template <class E> void tok(std::vector<std::string> &w, const E &x, const Fmt &f) { w.push_back(alone(x, f)); }
template <> void tok<cd>(std::vector<std::string> &w, const cd &x, const Fmt &f) { w.push_back(alone(x.real(), f)); w.push_back(alone(x.imag(), f)); }
template <class E> void vectors(Src &S) {
  long n = S.coin(1, 40) ? S.range(50, 1000) : S.coin(1, 8) ? 0 : S.range(1, 12);
  VKind k = gen_vkind(S, true);
  Vector<E> v(n);
  std::vector<E> m;
  for (long i = 0; i < n; ++i) { E x = i < 40 ? velt<E>(S, k) : m[(i * 7) % 37]; m.push_back(x); v.at(i) = x; }
  Fmt f = gen_fmt(S);
  std::vector<std::string> want;
  for (const E x : m) tok<E>(want, x, f);
  NOTE("vector of " << n << " elements " << show(want));
  if (n > 1) nontrivial();
  Vector<E> copy(v);
  std::string s = print(v, f);
  std::vector<std::string> got = tokens(s);
  if (got != want) FAIL("vector " << show(want) << " is printed as " << s);
  brackets(s);
  if (print(copy, f) != s) FAIL("a copy is printed in another way");
  for (long i = 0; i < n; ++i) if (memcmp(&v[i], &copy[i], sizeof(E))) FAIL("element " << i << " of the vector is changed");
}
TEST(vector_long, 20000, 500000) { vectors<long>(S); }
TEST(vector_int, 20000, 500000) { vectors<int>(S); }
TEST(vector_bool, 20000, 500000) { vectors<bool>(S); }
TEST(vector_R, 20000, 500000) { vectors<double>(S); }
TEST(vector_C, 20000, 500000) { vectors<cd>(S); }

TEST(lists, 20000, 500000) {
  Fmt f = gen_fmt(S);
  long v[5];
  double r[4];
  for (auto &x : v) x = S.sint(1000);
  for (auto &x : r) x = gen_num(S, V_SPECIAL);
  nontrivial();
  NOTE("lists " << v[0] << "," << v[1] << "," << v[2] << "," << v[3] << "," << v[4] << " and " << r[0] << "," << r[1] << "," << r[2] << "," << r[3]);
  std::vector<long> all(v, v + 5);
  expect_numbers("list of 1", print(igen << v[0], f), {v[0]}, {}, f);
  expect_numbers("list of 2", print(igen << v[0] << v[1], f), {v[0], v[1]}, {}, f);
  expect_numbers("list of 5", print(igen << v[0] << v[1] << v[2] << v[3] << v[4], f), all, {}, f);
  expect_numbers("real list", print(rgen << r[0] << r[1] << r[2] << r[3], f), {}, {r[0], r[1], r[2], r[3]}, f);
  Indices i = ix(all), j = i;
  expect_numbers("index list", print(i, f), all, {}, f);
  expect_numbers("concatenated lists", print(i << (igen << v[2] << v[1]), f), {v[0], v[1], v[2], v[3], v[4], v[2], v[1]}, {}, f);
  expect_eq("index list afterwards", ld(i), all);
  expect_numbers("no indices", print(Indices(), f), {}, {}, f);
  bool b0 = S.coin(), b1 = S.coin();
  Booleans b(2);
  b.at(0) = b0; b.at(1) = b1;
  expect_numbers("booleans", print(b, f), {b0, b1}, {}, f);
}

// ---- sparse ---------------------------------------------------------------------------
template <class T> void sparse(Src &S) {
  Arr<T> a = gen_sparse<T>(S, sp_dim(S), sp_dim(S), gen_vkind(S, true));
  Fmt f = gen_fmt(S);
  NOTE(tname<T>() << " sparse matrix " << show(a));
  if (a.size() > 1) nontrivial();
  Sparse<T> s = parts(a);
  KeepSp<T> keep(s);
  // -0 elements are not stored
  Arr<T> dense = ld(s);
  std::vector<double> v;
  for (auto &x : dense.v) parts_of(v, x);
  std::string text = print(s, f);
  expect_numbers("sparse matrix", text, a.d, v, f);
  if (text != print(mk(dense), f)) FAIL("a sparse matrix is printed as " << text << " and its dense equivalent as " << print(mk(dense), f));
  if (print(matrix_form(s), f) != print(matrix_form(mk(dense)), f)) FAIL("the matrix form of a sparse matrix is " << print(matrix_form(s), f) << " and of its dense equivalent " << print(matrix_form(mk(dense)), f));
  keep.check("the sparse matrix");
}
TEST(sparse_R, 40000, 1000000) { sparse<double>(S); }
TEST(sparse_C, 40000, 1000000) { sparse<cd>(S); }

// ---- matrix form ----------------------------------------------------------------------
template <class T> void matrices(Src &S) {
  long m = S.coin(1, 12) ? 0 : S.coin(1, 40) ? S.range(10, 60) : S.range(1, 6), n = S.coin(1, 12) ? 0 : S.coin(1, 40) ? S.range(10, 60) : S.range(1, 6);
  bool vec = S.coin(1, 5);
  Dims d = vec ? Dims{m} : Dims{m, n};
  Arr<T> a = gen_arr<T>(S, d, gen_vkind(S, true));
  Fmt f = gen_fmt(S);
  NOTE("matrix form " << tname<T>() << " " << show(a));
  if (a.size() > 1) nontrivial();
  label(vec ? "vector" : a.size() ? "matrix" : "empty matrix");
  Tensor<T> t = mk(a);
  auto form = matrix_form(t);
  std::string s = print(form, f);
  expect_eq("the matrix afterwards", t, a, VAL);
  std::vector<double> all;
  if (vec) for (auto &x : a.v) parts_of(all, x);
  else for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) parts_of(all, a(i, j));
  expect_numbers("matrix form", s, {}, all, f);
  std::vector<std::string> lines(1);
  for (char c : s) if (c == '\n') lines.push_back(""); else lines.back() += c;
  size_t want = vec || m == 0 ? 1 : (size_t)m;
  if (lines.size() != want) FAIL("the matrix form of " << m << " rows has " << lines.size() << " lines: " << s);
  if (!vec) for (long i = 0; i < m; ++i) {
    std::vector<double> row;
    for (long j = 0; j < n; ++j) parts_of(row, a(i, j));
    std::vector<std::string> g = tokens(lines[i]), w;
    for (double x : row) w.push_back(alone(x, f));
    if (g != w) FAIL("line " << i << " of the matrix form is " << lines[i] << " for the row " << show(w));
  }
  // the form is of the value at the time
  if (a.size()) {
    t.at(0) = t[0] + T(1);
    if (print(form, f) != s) FAIL("a matrix form follows later changes of the matrix");
  }
}
TEST(matrix_R, 60000, 1500000) { matrices<double>(S); }
TEST(matrix_C, 60000, 1500000) { matrices<cd>(S); }
TEST(other_ranks, 300, 5000) {
  Dims d = S.coin(1, 5) ? Dims() : S.coin(1, 8) ? gen_deep(S) : gen_dims(S, 3, 6, 3, true, 60);
  bool cx = S.coin();
  NOTE("matrix form of dimensions " << show(d));
  nontrivial();
  Fmt f = gen_fmt(S);
  if (d.empty()) {
    std::string s = cx ? print(matrix_form(CTensor()), f) : print(matrix_form(RTensor()), f);
    if (!tokens(s).empty()) FAIL("the matrix form of a tensor without elements is " << s);
    return;
  }
  must_refuse("the matrix form of rank above 2", [&] { if (cx) print(matrix_form(mk(tag_arr<cd>(d))), f); else print(matrix_form(mk(tag_arr<double>(d))), f); });
}

// ---- complex numbers -------------------------------------------------------------------
namespace tensor {   // the library's own operators, as its code sees them
inline void put(std::ostream &o, const cdouble &z) { o << z; }
inline void get(std::istream &i, cdouble &z) { i >> z; }
}
TEST(complex_numbers, 40000, 800000) {
  std::vector<cd> z;
  for (long n = S.range(1, 5); n > 0; --n) {
    cd x = gen_val<cd>(S, S.coin() ? V_REAL : V_INT);
    z.push_back(x);
  }
  NOTE("complex numbers " << show(z));
  nontrivial();
  std::ostringstream o;
  o.precision(17);
  for (size_t i = 0; i < z.size(); ++i) { if (i) o << (S.coin() ? " " : "\n"); tensor::put(o, z[i]); }
  std::istringstream in(o.str());
  for (auto &x : z) {
    cd y(1e33, -7);
    tensor::get(in, y);
    if (in.fail() || !same_bits(x, y)) FAIL(o.str() << " is read as " << y << " in place of " << x);
  }
}
