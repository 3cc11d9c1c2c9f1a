#include "huge.h"
#include <map>
using namespace tensor;
const char *pbt::PROPERTY = "C04";
const char *pbt::RULE =
    "Random rank 1-6 targets with position-tagged elements, random selections per dimension, sources: tensor, scalar, slice of "
    "another tensor, slice of the target itself, slice of a copy sharing data. Non-trivial: at least two elements are written, or "
    "the assignment must be refused.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"assertions are enabled, as in the default build", "a source with the same number of elements but other dimensions is accepted (the library documents assigning a vector to a row or column)"};

template <class T> void write(Src &S) {
  Dims d = gen_sel_dims(S, 1, 6, 6, 300);
  Arr<T> m = tag_arr<T>(d);
  Tensor<T> t = mk(m);
  std::vector<Sel> e;
  bool linear = d.size() > 1 && S.coin(1, 12);
  if (linear) e.push_back(gen_sel(S, prod(d)));
  else for (long n : d) e.push_back(gen_sel(S, n));
  Dims dd = linear ? Dims{prod(d)} : d;
  Dims sd = sel_dims(e), pos = sel_positions(e, dd);
  if (pos.size() >= 2) nontrivial();
  int src = (int)S.draw(6);
  bool shared = S.coin();
  Tensor<T> other;                       // shares data with the target
  Arr<T> mo = m;
  if (shared) other = t;
  Arr<T> want = m;
  static const char *nm[] = {"tensor", "scalar", "slice of another tensor", "slice of itself", "flattened tensor", "slice of a sharing copy"};
  label(std::string("source ") + nm[src]);
  label("rank" + std::to_string(e.size()));
  NOTE(tname<T>() << "Tensor dims=" << show(d) << " at(" << show(e) << ") = " << nm[src] << (shared ? ", data shared" : ""));
  switch (src) {
    case 0: case 4: {
      Arr<T> s = tag_arr<T>(sd, 1000);
      Tensor<T> st = mk(s);
      if (src == 4) st = Tensor<T>(Indices(igen << (tensor::index)s.size()), st);
      Tensor<T> keep = st;
      for (size_t i = 0; i < pos.size(); ++i) want.v[pos[i]] = s.v[i];
      assign(t, e, st);
      if (src == 0) expect_eq("source tensor", st, s);
      break;
    }
    case 1: {
      T v = gen_val<T>(S, V_SPECIAL);
      for (long p : pos) want.v[p] = v;
      assign(t, e, v);
      break;
    }
    default: {
      // a source slice with the same number of elements per dimension
      Dims du;
      std::vector<Sel> f;
      bool self = src != 2;
      for (size_t k = 0; k < sd.size(); ++k) {
        long n = self ? dd[k] : sd[k] + S.range(0, 3);
        du.push_back(n);
        f.push_back(gen_sel_count(S, n, sd[k]));
      }
      Arr<T> u = self ? m : tag_arr<T>(du, 1000);
      Dims pf = sel_positions(f, du);
      for (size_t i = 0; i < pos.size(); ++i) want.v[pos[i]] = u.v[pf[i]];
      NOTE("source dims=" << show(du) << " (" << show(f) << ")");
      if (src == 3) assign_slice(t, e, t, f);
      else { Tensor<T> ut = src == 5 ? t : mk(u); assign_slice(t, e, ut, f); u.d = dims_of(ut.dimensions()); expect_eq("source of the slice", ut, u); }
    }
  }
  expect_eq("target", t, want);
  if (shared) expect_eq("object that shared data with the target", other, mo);
}
TEST(write_R, 300000, 1800000) { write<double>(S); }
TEST(write_C, 200000, 1200000) { write<cd>(S); }

// histories of slice writes over several tensors that share data
template <class T> void history(Src &S) {
  Dims d = gen_dims(S, 1, 3, 4, false, 40);
  std::vector<Tensor<T>> t;
  std::vector<Arr<T>> m;
  for (int i = 0; i < 3; ++i) { m.push_back(tag_arr<T>(d, 100 * i)); t.push_back(mk(m.back())); }
  int steps = (int)S.range(1, 12), writes = 0;
  for (int s = 0; s < steps; ++s) {
    size_t a = S.draw(3), b = S.draw(3);
    switch (S.draw(4)) {
      case 0: t[a] = t[b]; m[a] = m[b]; NOTE("t" << a << " = t" << b); break;
      case 1: {
        std::vector<Sel> e, f;
        for (long n : d) { e.push_back(gen_sel(S, n)); f.push_back(gen_sel_count(S, n, e.back().pos.size())); }
        Dims p = sel_positions(e, d), q = sel_positions(f, d);
        NOTE("t" << a << ".at(" << show(e) << ") = t" << b << "(" << show(f) << ")");
        Arr<T> src = m[b];
        for (size_t i = 0; i < p.size(); ++i) m[a].v[p[i]] = src.v[q[i]];
        assign_slice(t[a], e, t[b], f);
        writes += p.size() > 0;
        break;
      }
      case 2: {
        std::vector<Sel> e;
        for (long n : d) e.push_back(gen_sel(S, n));
        T v = tag<T>(1000 + s);
        NOTE("t" << a << ".at(" << show(e) << ") = " << v);
        for (long i : sel_positions(e, d)) m[a].v[i] = v;
        assign(t[a], e, v);
        ++writes;
        break;
      }
      default: {
        std::vector<Sel> e;
        for (long n : d) e.push_back(gen_sel(S, n, false));
        NOTE("t" << a << ".at(" << show(e) << ") = flattened own slice");
        Tensor<T> x = slice(t[b], e);
        Dims p = sel_positions(e, d);
        Arr<T> src = m[b];
        for (long i : p) m[a].v[i] = T(0.0);
        for (size_t i = 0; i < p.size(); ++i) m[a].v[p[i]] = src.v[p[i]];
        assign(t[a], e, x);
        ++writes;
      }
    }
    for (int k = 0; k < 3; ++k) expect_eq("t" + std::to_string(k) + " after step " + std::to_string(s), t[k], m[k]);
  }
  if (writes >= 2) nontrivial();
}
TEST(history_R, 100000, 600000) { history<double>(S); }
TEST(history_C, 50000, 300000) { history<cd>(S); }

template <class T> void refused(Src &S) {
  Dims d = gen_dims(S, 1, 6, 4, true, 200);
  Tensor<T> t = mk(tag_arr<T>(d));
  std::vector<Sel> e;
  int what = (int)S.weighted({3, 1, 3, 2});
  nontrivial();
  std::string w;
  if (what == 0) {
    for (long n : d) e.push_back(gen_sel(S, n, false));
    size_t k = S.draw(d.size());
    e[k] = gen_bad_sel(S, d[k]);
    label("out of range " + std::to_string(e[k].kind));
    w = "Tensor dims=" + show(d) + " at(" + show(e) + ") = scalar";
    NOTE(w);
    must_refuse(w, [&] { assign(t, e, T(1.0)); });
    return;
  }
  if (what == 1) {
    size_t r = S.range(2, 6);
    if (r == d.size()) r = r == 6 ? 2 : r + 1;
    for (size_t i = 0; i < r; ++i) { Sel s; s.kind = 0; e.push_back(s); }
    label("wrong rank");
    w = "Tensor dims=" + show(d) + " at(" + show(e) + ") = scalar";
    NOTE(w);
    must_refuse(w, [&] { assign(t, e, T(1.0)); });
    return;
  }
  for (long n : d) e.push_back(gen_sel(S, n));
  Dims sd = sel_dims(e);
  Dims bad = sd;
  bad[S.draw(bad.size())] += S.coin() ? 1 : -1;
  for (long &x : bad) if (x < 0) x = 1;
  if (prod(bad) == prod(sd)) DISCARD();
  label(what == 2 ? "wrong size tensor" : "wrong size slice");
  w = "Tensor dims=" + show(d) + " at(" + show(e) + ") = " + (what == 2 ? "tensor" : "slice") + " of dims " + show(bad);
  NOTE(w);
  Tensor<T> u = mk(tag_arr<T>(bad));
  if (what == 2) must_refuse(w, [&] { assign(t, e, u); });
  else {
    std::vector<Sel> f;
    for (size_t i = 0; i < bad.size(); ++i) { Sel s; s.kind = 0; f.push_back(s); }
    must_refuse(w, [&] { assign_slice(t, e, u, f); });
  }
}
TEST(refused_R, 20000, 120000) { refused<double>(S); }
TEST(refused_C, 15000, 90000) { refused<cd>(S); }

// positions that do not fit in 32 bits
template <class T> void huge(Src &S) {
  char *base = huge_base();
  T *mem = (T *)base;
  Dims d = huge_dims<T>(S, 1, 6);
  std::vector<Sel> e;
  for (long n : d) e.push_back(huge_sel(S, n));
  bool scalar = S.coin(1, 3);
  NOTE("huge " << tname<T>() << "Tensor dims=" << show(d) << " at(" << show(e) << ")" << (scalar ? " = scalar" : " = tensor"));
  label("huge rank " + std::to_string(d.size()));
  Dims pos = sel_positions(e, d);
  if (pos.size()) nontrivial();
  if (pos.size() > 4000) DISCARD();
  Arr<T> src = tag_arr<T>(sel_dims(e));
  Tensor<T> t = huge_tensor<T>(d, base);
  if (scalar) { for (auto &x : src.v) x = T(-5.0); assign(t, e, T(-5.0)); } else assign(t, e, mk(src));
  std::map<long, T> want;
  for (size_t i = 0; i < pos.size(); ++i) want[pos[i]] = src.v[i];
  for (auto &p : want) {
    CHECK(mem[p.first] == p.second, "position " << p.first << " is " << mem[p.first] << " instead of " << p.second);
    for (long q = std::max(0L, p.first - 2); q <= p.first + 2 && q < prod(d); ++q) CHECK(want.count(q) || mem[q] == T(0.0), "position " << q << " changed");
  }
}
TEST(huge_R, 15000, 100000) { huge<double>(S); }
TEST(huge_C, 15000, 100000) { huge<cd>(S); }
