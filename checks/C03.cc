#include "huge.h"
using namespace tensor;
const char *pbt::PROPERTY = "C03";
const char *pbt::RULE =
    "Random rank 1-6 tensors with position-tagged elements and, per dimension, a random selection (full, single, start:end, "
    "start:step:end, index list with repeats; negative numbers mixed in; empty ones too). Non-trivial: the result has at least two "
    "elements, or the selection is out of range / of the wrong rank and must be refused.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"assertions are enabled, as in the default build", "one range on a tensor of higher rank addresses it linearly (documented in the code)"};

static void labels(const std::vector<Sel> &e) {
  static const char *k[] = {"full", "single", "start:end", "start:step:end", "list"};
  for (auto &x : e) label(std::string("sel ") + k[x.kind]);
  label("rank" + std::to_string(e.size()));
}
template <class T> void read(Src &S) {
  Dims d = gen_sel_dims(S, 1, 6, 6, 400);
  Arr<T> m = tag_arr<T>(d);
  Tensor<T> t = mk(m);
  std::vector<Sel> e;
  bool linear = d.size() > 1 && S.coin(1, 12);
  if (linear) { e.push_back(gen_sel(S, prod(d))); label("linear"); }
  else for (long n : d) e.push_back(gen_sel(S, n));
  labels(e);
  NOTE(tname<T>() << "Tensor dims=" << show(d) << " (" << show(e) << ")");
  Dims pos = sel_positions(e, linear ? Dims{prod(d)} : d);
  Arr<T> want;
  want.d = sel_dims(e);
  for (long p : pos) want.v.push_back(m.v[p]);
  if (want.size() >= 2) nontrivial();
  if (want.size() == 0) label("empty result");
  Tensor<T> r = slice(t, e);
  expect_eq("slice", r, want);
  expect_eq("source after slicing", t, m);
  // no later sharing
  if (r.size()) {
    r.at_seq(S.draw(r.size())) = T(-5.0);
    expect_eq("source after writing to the result", t, m);
    r = slice(t, e);
    t.at_seq(S.draw(t.size())) = T(-9.0);
    expect_eq("result after writing to the source", r, want);
  }
}
TEST(read_R, 300000, 1800000) { read<double>(S); }
TEST(read_C, 200000, 1200000) { read<cd>(S); }

// the same view converted twice, and a view that outlives a write to its source
template <class T> void view_object(Src &S) {
  Dims d = gen_dims(S, 2, 3, 5, false, 100);
  Arr<T> m = tag_arr<T>(d);
  Tensor<T> t = mk(m);
  std::vector<Sel> e;
  for (long n : d) e.push_back(gen_sel(S, n));
  Dims pos = sel_positions(e, d);
  Arr<T> want;
  want.d = sel_dims(e);
  for (long p : pos) want.v.push_back(m.v[p]);
  if (want.size() >= 2) nontrivial();
  NOTE("view of " << show(d) << " (" << show(e) << ") converted twice");
  auto use = [&](const typename Tensor<T>::view &v) {
    Tensor<T> a = v, b = v;
    expect_eq("first conversion of a view", a, want);
    expect_eq("second conversion of a view", b, want);
    Tensor<T> s = Tensor<T>(v) + Tensor<T>(v);
    Arr<T> w2 = want;
    for (auto &x : w2.v) x = x + x;
    expect_eq("view used twice in an expression", s, w2);
  };
  if (d.size() == 2) use(t(e[0].make(), e[1].make())); else use(t(e[0].make(), e[1].make(), e[2].make()));
}
TEST(view_R, 40000, 240000) { view_object<double>(S); }
TEST(view_C, 20000, 120000) { view_object<cd>(S); }

template <class T> void refused(Src &S) {
  Dims d = gen_dims(S, 1, 6, 4, true, 200);
  Tensor<T> t = mk(tag_arr<T>(d));
  std::vector<Sel> e;
  int what = (int)S.weighted({4, 1});
  if (what == 0) {
    for (long n : d) e.push_back(gen_sel(S, n, false));
    size_t k = S.draw(d.size());
    e[k] = gen_bad_sel(S, d[k]);
    label("out of range " + std::to_string(e[k].kind));
  } else {
    size_t r = S.range(2, 6);
    if (r == d.size()) r = r == 6 ? 2 : r + 1;
    for (size_t i = 0; i < r; ++i) { Sel s; s.kind = 0; e.push_back(s); }
    label("wrong rank");
  }
  nontrivial();
  std::string w = std::string(tname<T>()) + "Tensor dims=" + show(d) + " (" + show(e) + ")";
  NOTE(w);
  must_refuse(w, [&] { Tensor<T> r = slice(t, e); });
}
TEST(refused_R, 20000, 120000) { refused<double>(S); }
TEST(refused_C, 15000, 90000) { refused<cd>(S); }

// positions that do not fit in 32 bits
template <class T> void huge(Src &S) {
  char *base = huge_base();
  T *mem = (T *)base;
  Dims d = huge_dims<T>(S, 1, 6);
  std::vector<Sel> e;
  for (long n : d) e.push_back(huge_sel(S, n));
  NOTE("huge " << tname<T>() << "Tensor dims=" << show(d) << " (" << show(e) << ")");
  label("huge rank " + std::to_string(d.size()));
  Dims pos = sel_positions(e, d);
  if (pos.size()) nontrivial();
  if (pos.size() > 4000) DISCARD();
  Arr<T> want(sel_dims(e));
  for (size_t i = 0; i < pos.size(); ++i) mem[pos[i]] = tag<T>((long)i);
  for (size_t i = 0; i < pos.size(); ++i) want.v[i] = mem[pos[i]];
  Tensor<T> t = huge_tensor<T>(d, base);
  expect_eq("slice", slice(t, e), want);
  for (size_t i = 0; i < pos.size(); ++i) CHECK(mem[pos[i]] == want.v[i], "the source changed");
}
TEST(huge_R, 15000, 100000) { huge<double>(S); }
TEST(huge_C, 15000, 100000) { huge<cd>(S); }
