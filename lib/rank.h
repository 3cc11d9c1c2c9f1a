// dispatch of accessors and slices by rank, and a model of range selections
#ifndef PBT_RANK_H
#define PBT_RANK_H
#include "gen.h"
#include <climits>
namespace pbt {
template <class T> const T &get(const tensor::Tensor<T> &t, const Dims &i) {
  switch (i.size()) {
    case 1: return t(i[0]);
    case 2: return t(i[0], i[1]);
    case 3: return t(i[0], i[1], i[2]);
    case 4: return t(i[0], i[1], i[2], i[3]);
    case 5: return t(i[0], i[1], i[2], i[3], i[4]);
    default: return t(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template <class T> T &ref(tensor::Tensor<T> &t, const Dims &i) {
  switch (i.size()) {
    case 1: return t.at(i[0]);
    case 2: return t.at(i[0], i[1]);
    case 3: return t.at(i[0], i[1], i[2]);
    case 4: return t.at(i[0], i[1], i[2], i[3]);
    case 5: return t.at(i[0], i[1], i[2], i[3], i[4]);
    default: return t.at(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template <class T> tensor::Tensor<T> make_by_args(const Dims &i) {
  typedef tensor::Tensor<T> TT;
  switch (i.size()) {
    case 1: return TT(i[0]);
    case 2: return TT(i[0], i[1]);
    case 3: return TT(i[0], i[1], i[2]);
    case 4: return TT(i[0], i[1], i[2], i[3]);
    case 5: return TT(i[0], i[1], i[2], i[3], i[4]);
    default: return TT(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}

// One selection along a dimension of size n.
struct Sel {
  int kind;              // 0 full 1 single 2 a:b 3 a:s:b 4 list
  long a, b, s;
  Dims list;             // as written by the caller (may hold negative numbers)
  Dims pos;              // positions it stands for
  tensor::PRange make() const {
    switch (kind) {
      case 0: return tensor::range();
      case 1: return tensor::range(a);
      case 2: return tensor::range(a, b);
      case 3: return tensor::range(a, b, s);
      default: return tensor::range(ix(list));
    }
  }
  std::string str() const {
    std::ostringstream o;
    switch (kind) {
      case 0: o << "range()"; break;
      case 1: o << "range(" << a << ")"; break;
      case 2: o << "range(" << a << "," << b << ")"; break;
      case 3: o << "range(" << a << "," << b << "," << s << ")"; break;
      default: o << "range(" << show(list) << ")";
    }
    return o.str();
  }
};
// dimensions to select from: small ones, now and then thousands of elements
inline Dims gen_sel_dims(Src &S, long rmin, long rmax, long max, long cap) {
  return S.coin(1, 100) ? gen_dims(S, rmin, std::max(rmin, std::min(rmax, 3L)), S.coin() ? 3000 : 60, false, 4000) : gen_dims(S, rmin, rmax, max, true, cap);
}
inline Sel gen_sel(Src &S, long n, bool allow_empty = true) {
  Sel e; e.a = e.b = e.s = 0;
  e.kind = n == 0 ? (S.coin() ? 4 : 0) : (int)S.weighted({2, 2, 3, 3, 3});
  auto neg = [&](long i) { return S.coin(1, 4) ? i - n : i; };
  switch (e.kind) {
    case 0: for (long i = 0; i < n; ++i) e.pos.push_back(i); break;
    case 1: { long i = S.range(0, n - 1); e.pos.push_back(i); e.a = neg(i); break; }
    case 2: case 3: {
      long a = S.range(0, n - 1), b = S.range(0, n - 1);
      if (a > b && (!allow_empty || !S.coin(1, 6))) std::swap(a, b);
      e.s = e.kind == 2 ? 1 : S.coin(1, 20) ? LONG_MAX / S.range(1, 9) - S.range(0, 3) : S.coin(1, 30) ? (1L << S.range(31, 62)) + S.range(-1, 1) : S.range(1, n + 1);
      for (long i = a; i <= b; i += e.s) { e.pos.push_back(i); if (e.s > n) break; }
      e.a = neg(a); e.b = neg(b);
      break;
    }
    default: {
      long k = S.range(allow_empty ? 0 : 1, n == 0 ? 0 : n + 2);
      for (long i = 0; i < k; ++i) { long p = S.range(0, n - 1); e.pos.push_back(p); e.list.push_back(neg(p)); }
    }
  }
  return e;
}
// a list selection with exactly k entries out of n (n>0 or k==0)
inline Sel gen_sel_count(Src &S, long n, long k) {
  Sel e; e.a = e.b = e.s = 0; e.kind = 4;
  if (k == n && S.coin(1, 4)) { e.kind = 0; for (long i = 0; i < n; ++i) e.pos.push_back(i); return e; }
  if (k >= 1 && k <= n && S.coin()) {
    e.kind = k == 1 && S.coin() ? 1 : 2;
    e.a = S.range(0, n - k); e.b = e.a + k - 1; e.s = 1;
    for (long i = e.a; i <= e.b; ++i) e.pos.push_back(i);
    return e;
  }
  for (long i = 0; i < k; ++i) { long p = S.range(0, n - 1); e.pos.push_back(p); e.list.push_back(p); }
  return e;
}
// a selection that reaches outside a dimension of size n
inline Sel gen_bad_sel(Src &S, long n) {
  Sel e; e.s = 1; e.a = e.b = 0;
  long over = S.coin() ? n : n + S.range(0, 3), under = -n - 1 - (S.coin(1, 3) ? S.range(0, 3) : 0);
  bool hi = !S.coin(1, 3);
  if (S.coin(1, 5)) {   // valid once cut down to 32 bits
    long f = S.coin() ? 1L << 32 : 1L << S.range(31, 61), base = n ? S.range(0, n - 1) : 0;
    over = f + base; under = base - f;
  }
  e.kind = 1 + (int)S.draw(4);
  if (e.kind == 2 || e.kind == 3) {
    e.s = e.kind == 3 ? S.range(1, 3) : 1;
    if (hi) { e.b = over; e.a = n ? S.range(0, n - 1) : 0; e.a = e.b - ((e.b - e.a) / e.s) * e.s; if (e.a >= n && n) e.a = e.a; }
    else { e.a = under; e.b = n ? S.range(0, n - 1) : 0; }
  } else if (e.kind == 1) e.a = hi ? over : under;
  else {
    long k = S.range(0, 3), at = S.range(0, k);
    for (long i = 0; i <= k; ++i) e.list.push_back(i == at || n == 0 ? (hi ? over : under) : S.range(0, n - 1));
  }
  return e;
}
inline std::string show(const std::vector<Sel> &v) {
  std::string s;
  for (auto &e : v) s += (s.empty() ? "" : ", ") + e.str();
  return s;
}
template <class TT> auto slice(const TT &t, const std::vector<Sel> &e) -> TT {
  switch (e.size()) {
    case 1: return t(e[0].make());
    case 2: return t(e[0].make(), e[1].make());
    case 3: return t(e[0].make(), e[1].make(), e[2].make());
    case 4: return t(e[0].make(), e[1].make(), e[2].make(), e[3].make());
    case 5: return t(e[0].make(), e[1].make(), e[2].make(), e[3].make(), e[4].make());
    default: return t(e[0].make(), e[1].make(), e[2].make(), e[3].make(), e[4].make(), e[5].make());
  }
}
// t.at(e) = x, where x is a tensor or a scalar
template <class TT, class X> void assign(TT &t, const std::vector<Sel> &e, const X &x) {
  switch (e.size()) {
    case 1: t.at(e[0].make()) = x; break;
    case 2: t.at(e[0].make(), e[1].make()) = x; break;
    case 3: t.at(e[0].make(), e[1].make(), e[2].make()) = x; break;
    case 4: t.at(e[0].make(), e[1].make(), e[2].make(), e[3].make()) = x; break;
    case 5: t.at(e[0].make(), e[1].make(), e[2].make(), e[3].make(), e[4].make()) = x; break;
    default: t.at(e[0].make(), e[1].make(), e[2].make(), e[3].make(), e[4].make(), e[5].make()) = x;
  }
}
// t.at(e) = u(f)
template <class TT> void assign_slice(TT &t, const std::vector<Sel> &e, const TT &u, const std::vector<Sel> &f) {
  switch (f.size()) {
    case 1: assign(t, e, u(f[0].make())); break;
    case 2: assign(t, e, u(f[0].make(), f[1].make())); break;
    case 3: assign(t, e, u(f[0].make(), f[1].make(), f[2].make())); break;
    case 4: assign(t, e, u(f[0].make(), f[1].make(), f[2].make(), f[3].make())); break;
    case 5: assign(t, e, u(f[0].make(), f[1].make(), f[2].make(), f[3].make(), f[4].make())); break;
    default: assign(t, e, u(f[0].make(), f[1].make(), f[2].make(), f[3].make(), f[4].make(), f[5].make()));
  }
}
inline Dims sel_dims(const std::vector<Sel> &e) { Dims d; for (auto &x : e) d.push_back(x.pos.size()); return d; }
// linear positions selected, in column-major order of the result
inline Dims sel_positions(const std::vector<Sel> &e, const Dims &d) {
  Dims sd = sel_dims(e), out;
  for (long n : sd) if (n == 0) return out;
  Dims i(sd.size(), 0), full(sd.size());
  do {
    for (size_t k = 0; k < sd.size(); ++k) full[k] = e[k].pos[i[k]];
    out.push_back(offset(full, d));
  } while (next_index(i, sd));
  return out;
}
}  // namespace pbt
#endif
