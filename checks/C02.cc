#include "huge.h"
using namespace tensor;
const char *pbt::PROPERTY = "C02";
const char *pbt::RULE =
    "Random rank 1-6 shapes (sizes 0-6), real and complex, elements tagged by position; index tuples in range, negative, and "
    "just outside. Non-trivial: at least two elements read or written, or an out-of-range / wrong-rank access attempted.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "assertions are enabled, as in the default build (refusal = abort or exception)",
    "a single index on a tensor of higher rank addresses it linearly in at(); that form is outside this property"};

template <class T> void shape_ok(const std::string &w, const Tensor<T> &t, const Dims &d) {
  CHECK(t.rank() == (long)d.size(), w << ": rank " << t.rank() << " for dims " << show(d));
  expect_eq(w + ": dimensions()", ld(t.dimensions()), d);
  CHECK(t.size() == prod(d), w << ": size " << t.size() << " for dims " << show(d));
  CHECK(t.is_empty() == (prod(d) == 0), w << ": is_empty");
  for (size_t k = 0; k < d.size(); ++k) CHECK(t.dimension(k) == d[k], w << ": dimension(" << k << ")=" << t.dimension(k) << " for dims " << show(d));
  tensor::index q[6] = {-7, -7, -7, -7, -7, -7};
  switch (d.size()) {
    case 1: t.get_dimensions(q); break;
    case 2: t.get_dimensions(q, q + 1); break;
    case 3: t.get_dimensions(q, q + 1, q + 2); break;
    case 4: t.get_dimensions(q, q + 1, q + 2, q + 3); break;
    case 5: t.get_dimensions(q, q + 1, q + 2, q + 3, q + 4); break;
    case 6: t.get_dimensions(q, q + 1, q + 2, q + 3, q + 4, q + 5); break;
  }
  for (size_t k = 0; k < d.size() && d.size() <= 6; ++k) CHECK(q[k] == d[k], w << ": get_dimensions[" << k << "]=" << q[k] << " for dims " << show(d));
  CHECK(t.rows() == d[0], w << ": rows()");
  if (d.size() > 1) CHECK(t.columns() == d[1], w << ": columns()");
  CHECK(t.end_const() - t.begin_const() == prod(d), w << ": iterator distance");
}

template <class T> void read_write(Src &S) {
  Dims d = gen_sel_dims(S, 1, 6, 6, 300);
  bool by_args = S.coin();
  NOTE(tname<T>() << "Tensor dims=" << show(d) << (by_args ? " by arguments" : " by index list"));
  Tensor<T> t = by_args ? make_by_args<T>(d) : Tensor<T>(ix(d));
  shape_ok("constructed", t, d);
  Arr<T> m = tag_arr<T>(d);
  long n = prod(d);
  label("rank" + std::to_string(d.size()));
  if (n >= 2) nontrivial();
  // fill through a random mutable path
  int path = (int)S.draw(4);
  if (n) {
    Dims i(d.size(), 0);
    long k = 0;
    auto it = t.begin();
    do {
      CHECK(offset(i, d) == k, "internal");
      switch (path) {
        case 0: ref(t, i) = m.v[k]; break;
        case 1: t.at_seq(k) = m.v[k]; break;
        case 2: *it++ = m.v[k]; break;
        default: { Dims j = i; for (size_t q = 0; q < j.size(); ++q) if (S.coin(1, 3)) j[q] -= d[q]; ref(t, j) = m.v[k]; }
      }
      ++k;
    } while (next_index(i, d));
  }
  // every reading path agrees
  const Tensor<T> &c = t;
  if (n) {
    Dims i(d.size(), 0);
    long k = 0;
    auto it = c.begin_const();
    do {
      Dims j = i;
      for (size_t q = 0; q < j.size(); ++q) if (S.coin(1, 4)) j[q] -= d[q];
      CHECK(same_bits(get(c, i), m.v[k]), "read at " << show(i) << " of " << show(d) << ": " << get(c, i) << " instead of " << m.v[k]);
      CHECK(same_bits(get(c, j), m.v[k]), "read at " << show(j) << " of " << show(d) << ": " << get(c, j) << " instead of " << m.v[k]);
      CHECK(same_bits(c[k], m.v[k]), "linear read " << k);
      CHECK(same_bits(*it, m.v[k]), "iterator read " << k);
      CHECK(same_bits(ref(t, j), m.v[k]), "mutable read at " << show(j) << " of " << show(d));
      ++it; ++k;
    } while (next_index(i, d));
  }
  // one write changes one element
  if (n) {
    Dims i;
    for (long x : d) i.push_back(S.range(0, x - 1));
    Dims j = i;
    for (size_t q = 0; q < j.size(); ++q) if (S.coin(1, 3)) j[q] -= d[q];
    ref(t, j) = T(-77.0);
    m.v[offset(i, d)] = T(-77.0);
    expect_eq("after one write at " + show(j), t, m);
    shape_ok("after write", t, d);
  }
}
TEST(read_write_R, 60000, 360000) { read_write<double>(S); }
TEST(read_write_C, 60000, 360000) { read_write<cd>(S); }

template <class T> void bad_index(Src &S) {
  Dims d = gen_dims(S, 1, 6, 5, true, 200);
  Tensor<T> t = mk(tag_arr<T>(d));
  Dims i;
  for (long x : d) i.push_back(x ? S.range(-x, x - 1) : 0);
  size_t k = S.draw(d.size());
  long over = S.coin(2, 3) ? d[k] : d[k] + S.range(0, 40), under = S.coin(2, 3) ? -d[k] - 1 : -d[k] - 1 - S.range(0, 40);
  if (S.coin(1, 4)) {   // a valid index once it is cut down to 32 bits, and the extremes
    static const long far[] = {1L << 32, 1L << 33, 1L << 31, 1L << 62};
    long f = S.elem(far), base = d[k] ? S.range(0, d[k] - 1) : 0;
    over = S.coin(1, 5) ? std::numeric_limits<long>::max() : f + base;
    under = S.coin(1, 5) ? std::numeric_limits<long>::min() : base - f;
    label("bad index far away");
  }
  i[k] = S.coin() ? over : under;
  bool wr = S.coin();
  nontrivial();
  std::string w = std::string(tname<T>()) + "Tensor dims=" + show(d) + (wr ? " at" : " ()") + show(i);
  NOTE(w);
  label(wr ? "bad-at" : "bad-read");
  double sink = 0;
  must_refuse(w, [&] { if (wr) ref(t, i) = T(5.0); else sink += std::abs(get(t, i)); });
}
TEST(bad_index_R, 15000, 90000) { bad_index<double>(S); }
TEST(bad_index_C, 15000, 90000) { bad_index<cd>(S); }

template <class T> void bad_rank(Src &S) {
  Dims d = gen_dims(S, 1, 6, 4, false, 200);
  Tensor<T> t = mk(tag_arr<T>(d));
  size_t r = S.range(1, 6);
  if (r == d.size()) r = r % 6 + 1;
  int what = (int)S.draw(4);
  if (r == 1 && what == 1) what = 0;   // at(i) is linear
  Dims i(r, 0);
  nontrivial();
  std::string w = std::string(tname<T>()) + "Tensor dims=" + show(d) + " accessed with " + std::to_string(r) + " indices, form " + std::to_string(what);
  NOTE(w);
  tensor::index q[6];
  double sink = 0;
  must_refuse(w, [&] {
    switch (what) {
      case 0: sink += std::abs(get(t, i)); break;
      case 1: ref(t, i) = T(1.0); break;
      case 2: { long k = S.coin() ? (long)d.size() : -1; sink += t.dimension(k); break; }
      default:
        switch (r) {
          case 1: t.get_dimensions(q); break;
          case 2: t.get_dimensions(q, q + 1); break;
          case 3: t.get_dimensions(q, q + 1, q + 2); break;
          case 4: t.get_dimensions(q, q + 1, q + 2, q + 3); break;
          case 5: t.get_dimensions(q, q + 1, q + 2, q + 3, q + 4); break;
          case 6: t.get_dimensions(q, q + 1, q + 2, q + 3, q + 4, q + 5); break;
        }
    }
  });
}
TEST(bad_rank_R, 10000, 60000) { bad_rank<double>(S); }
TEST(bad_rank_C, 10000, 60000) { bad_rank<cd>(S); }

// construction from data
template <class T> void from_data(Src &S) {
  Dims d = S.coin(1, 50) ? gen_deep(S) : gen_dims(S, 1, 6, 5, true, 200);
  Arr<T> m = gen_arr<T>(S, d, V_SPECIAL);
  long n = prod(d);
  std::vector<T> v(m.v);
  if (n >= 2) nontrivial();
  NOTE(tname<T>() << " data " << show(m));
  Tensor<T> flat(v);                    // from std::vector
  expect_eq("from std::vector", flat, [&] { Arr<T> a; a.d = Dims{n}; a.v = v; return a; }());
  Tensor<T> t(ix(d), flat);
  expect_eq("from dims and data", t, m);
  Vector<T> vec(n);
  for (long i = 0; i < n; ++i) vec.at(i) = v[i];
  expect_eq("from Vector", Tensor<T>(vec), ld(flat));
  Vector<T> back = t;
  CHECK(back.size() == n, "conversion to vector: size " << back.size());
  for (long i = 0; i < n; ++i) CHECK(same_bits(back[i], v[i]), "conversion to vector: element " << i);
  // a borrowed buffer is copied by value semantics of the tensor built on it
  if (n) {
    std::vector<T> store(v);
    Vector<T> borrowed(n, &store[0]);
    Tensor<T> tb(borrowed);
    expect_eq("from borrowed vector", tb, ld(flat));
  }
  // conversion between element types
  if (std::is_same<T, double>::value) {
    Tensor<cd> c(t);
    Arr<cd> mc(d);
    for (long i = 0; i < n; ++i) mc.v[i] = cd(m.v[i]);
    expect_eq("real to complex conversion", c, mc);
  }
  Tensor<T> moved(t);
  expect_eq("copy", moved, m);
  // wrong sizes are refused
  if (S.coin(1, 10)) {
    Dims bad = d;
    bad[S.draw(bad.size())] += S.range(1, 3);
    if (prod(bad) != n) {
      label("bad-size");
      must_refuse("dims " + show(bad) + " with " + std::to_string(n) + " elements", [&] { Tensor<T> x(ix(bad), flat); });
    }
  }
}
TEST(from_data_R, 20000, 120000) { from_data<double>(S); }
TEST(from_data_C, 20000, 120000) { from_data<cd>(S); }

template <class T> void constants(Src &S) {
  typedef Tensor<T> TT;
  int which = (int)S.draw(4);
  Dims d;
  if (which == 3) {
    long r = S.range(0, 6), c = S.range(0, 6);
    bool sq = S.coin(1, 3);
    if (sq) c = r;
    Arr<T> m(Dims{r, c});
    for (long i = 0; i < std::min(r, c); ++i) m(i, i) = T(1.0);
    if (r * c > 1) nontrivial();
    NOTE("eye(" << r << "," << c << ")");
    expect_eq("eye(" + std::to_string(r) + "," + std::to_string(c) + ")", sq && S.coin() ? TT::eye(r) : TT::eye(r, c), m);
    return;
  }
  d = S.coin(1, 50) ? gen_deep(S) : gen_dims(S, 1, 6, 5, true, 300);
  bool by_ix = S.coin() || d.size() == 1 || d.size() > 6;
  T val = which == 0 ? T(0.0) : which == 1 ? T(1.0) : gen_val<T>(S, V_SPECIAL);
  NOTE("constant " << which << " dims=" << show(d) << " by_index_list=" << by_ix);
  if (prod(d) > 1) nontrivial();
  TT t;
  if (which == 2) {
    t = TT(ix(d));
    TT keep = t;
    t.fill_with(val);
    if (S.coin()) { t.fill_with_zeros(); val = T(0.0); }
  } else if (by_ix) t = which ? TT::ones(ix(d)) : TT::zeros(ix(d));
  else switch (d.size()) {
    case 2: if (d[0] == d[1] && S.coin()) t = which ? TT::ones(d[0]) : TT::zeros(d[0]); else t = which ? TT::ones(d[0], d[1]) : TT::zeros(d[0], d[1]); break;
    case 3: t = which ? TT::ones(d[0], d[1], d[2]) : TT::zeros(d[0], d[1], d[2]); break;
    case 4: t = which ? TT::ones(d[0], d[1], d[2], d[3]) : TT::zeros(d[0], d[1], d[2], d[3]); break;
    case 5: t = which ? TT::ones(d[0], d[1], d[2], d[3], d[4]) : TT::zeros(d[0], d[1], d[2], d[3], d[4]); break;
    case 6: t = which ? TT::ones(d[0], d[1], d[2], d[3], d[4], d[5]) : TT::zeros(d[0], d[1], d[2], d[3], d[4], d[5]); break;
  }
  Arr<T> m(d, val);
  expect_eq("uniform tensor", t, m);
  shape_ok("uniform tensor", t, d);
}
TEST(constants_R, 30000, 180000) { constants<double>(S); }
TEST(constants_C, 30000, 180000) { constants<cd>(S); }

// tensors whose positions do not fit in 32 bits
template <class T> void huge(Src &S) {
  char *base = huge_base();
  T *mem = (T *)base;
  Dims d = huge_dims<T>(S, 1, 6);
  NOTE("huge " << tname<T>() << "Tensor dims=" << show(d));
  label("huge rank " + std::to_string(d.size()));
  nontrivial();
  Tensor<T> t = huge_tensor<T>(d, base);
  shape_ok("huge", t, d);
  std::vector<std::pair<Dims, T> > done;
  for (int n = 0; n < 6; ++n) {
    Dims i, j;
    for (long x : d) { i.push_back(huge_pos(S, x)); j.push_back(S.coin(1, 3) ? i.back() - x : i.back()); }
    long o = offset(i, d);
    bool again = false;
    for (auto &p : done) again |= p.first == i;
    if (again) continue;
    T v = tag<T>(n);
    int path = (int)S.draw(3);
    CHECK(get(t, i) == T(0.0), "huge tensor " << show(d) << " at " << show(i) << " is not zero before it is written");
    switch (path) { case 0: ref(t, j) = v; break; case 1: t.at_seq(o) = v; break; default: *(t.begin() + o) = v; }
    CHECK(mem[o] == v, "writing " << show(j) << " of " << show(d) << " did not change position " << o);
    done.push_back({i, v});
    const Tensor<T> &c = t;
    for (auto &p : done) {
      long q = offset(p.first, d);
      CHECK(get(c, p.first) == p.second, "huge tensor " << show(d) << " at " << show(p.first) << " is " << get(c, p.first));
      CHECK(c[q] == p.second && ref(t, p.first) == p.second && *(c.begin_const() + q) == p.second, "huge tensor " << show(d) << " at " << q);
    }
  }
  long n = 0;   // nothing else around them
  for (auto &p : done) for (long o = offset(p.first, d), q = std::max(0L, o - 3); q <= o + 3 && q < prod(d); ++q) n += q != o && mem[q] != T(0.0);
  for (auto &p : done) for (auto &r : done) { long x = offset(p.first, d) - offset(r.first, d); n -= x && std::labs(x) <= 3; }
  CHECK(n == 0, "elements next to the written ones changed");
  Dims bad(d.size(), 0);
  size_t k = S.draw(d.size());
  bad[k] = d[k] + (long)S.draw(2);
  if (S.coin(1, 10)) must_refuse("huge " + show(d) + " at " + show(bad), [&] { mem[0] = ref(t, bad); });
}
TEST(huge_R, 15000, 100000) { huge<double>(S); }
TEST(huge_C, 15000, 100000) { huge<cd>(S); }
