#include "rank.h"
#include <tensor/fftw.h>
#include <tensor/io.h>
#include <tensor/linalg.h>
#include <tensor/rand.h>
#include <sstream>
using namespace tensor;
const char *pbt::PROPERTY = "C01";
const char *pbt::RULE =
    "Random histories (up to 40 steps) over populations of tensors, vectors, index lists, boolean lists and sparse matrices: copy, "
    "self-assignment, conversion, pass by value, element/iterator/slice writes, refills, compound operators, in-place functions, "
    "reshapes, destruction; after every step every object is compared with its own model, at the end memory must be back to the "
    "start. Non-trivial: at least one write hits an object that shares storage with another live object.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"iterators and references are used immediately, not kept across other operations, as the documentation demands", "leaks are measured as the growth of sanitizer-allocated bytes over one history"};

static Dims adims(Src &S) { if (S.coin(1, 100)) return gen_deep(S, 5, 6); if (S.coin(1, 250)) return gen_dims(S, 1, 3, S.coin() ? 3000 : 60, false, 4000); return gen_dims(S, 1, 4, 4, true, 40); }
// pass by value and modify the copy
template <class T> static T clobber(Tensor<T> t, T v) {
  t.fill_with(v);
  if (t.size()) t.at_seq(0) = T(0.0);
  return t.size() > 1 ? t[1] : v;
}
static long clobber(Indices i, long v) { for (long k = 0; k < i.size(); ++k) i.at(k) = v; return i.size(); }
template <class T> static Tensor<T> identity(Tensor<T> t) { return t; }
template <class T> static const Tensor<T> change(const Tensor<T> &a, T v) { Tensor<T> t(a); if (t.size()) t.at_seq(t.size() - 1) = v; return t; }

template <class T> struct Vec { std::vector<T> v; };

template <class T> void history_body(Src &S) {
  const int N = 4;
  std::vector<Tensor<T>> t;
  std::vector<Arr<T>> m;
  std::vector<Vector<T>> vec(2);
  std::vector<std::vector<T>> vm(2);
  std::vector<Indices> ind(2);
  std::vector<Dims> im(2);
  for (int i = 0; i < N; ++i) { m.push_back(tag_arr<T>(adims(S), 100 * i)); t.push_back(mk(m.back())); }
  for (int i = 0; i < 2; ++i) { im[i] = adims(S); ind[i] = ix(im[i]); }
  t.push_back(Tensor<T>()); m.push_back(Arr<T>());   // default-constructed
  int steps = (int)S.range(1, 40);
  long fresh = 1000;
  bool shared_write = false;
  auto wr = [&](size_t a) { if (t[a].ref_count() > 1) shared_write = true; };
  for (int s = 0; s < steps; ++s) {
    size_t a = S.draw(t.size()), b = S.draw(t.size());
    T v = tag<T>(++fresh);
    int op = (int)S.draw(34);
    std::ostringstream o;
    o << "op " << op << " a=" << a << " b=" << b;
    switch (op) {
      case 0: case 1: o.str(""); o << "t" << a << " = t" << b; t[a] = t[b]; m[a] = m[b]; break;
      case 2: { o << " copy-construct and store"; Tensor<T> c(t[b]); t[a] = c; m[a] = m[b]; if (c.size()) { c.at_seq(0) = v; shared_write = true; } break; }
      case 3: if (t[a].size()) { long i = S.range(0, t[a].size() - 1); o << " at_seq(" << i << ")"; wr(a); t[a].at_seq(i) = v; m[a].v[i] = v; } break;
      case 4: if (t[a].size()) { long i = S.range(0, t[a].size() - 1); o << " at(linear " << i << ")"; wr(a); t[a].at(i) = v; m[a].v[i] = v; } break;
      case 5: if (t[a].size() && m[a].rank() >= 2) {
          Dims i; for (long n : m[a].d) i.push_back(S.range(0, n - 1));
          o << " at" << show(i); wr(a); ref(t[a], i) = v; m[a].v[offset(i, m[a].d)] = v;
        } break;
      case 6: o << " fill_with"; wr(a); t[a].fill_with(v); for (auto &x : m[a].v) x = v; break;
      case 7: o << " fill_with_zeros"; wr(a); t[a].fill_with_zeros(); for (auto &x : m[a].v) x = T(0.0); break;
      case 8: {
        o << " through iterators"; wr(a); long k = 0;
        for (typename Tensor<T>::iterator it = t[a].begin(), e = t[a].end(); it != e; ++it, ++k) { T w = v + T((double)k); *it = w; m[a].v[k] = w; }
        break;
      }
      case 9: o << " self-assignment"; { Tensor<T> &r = t[a]; t[a] = r; } break;
      case 10: { o << " element of copy written before original"; Tensor<T> c = t[a]; if (c.size()) { shared_write = true; t[a].at_seq(0) = v; m[a].v[0] = v; T w = c[0]; CHECK(c.size() == (long)m[a].v.size(), "copy changed size"); (void)w; } break; }
      case 11: o << " pass by value"; clobber<T>(t[a], v); break;
      case 12: o << " return by value"; t[a] = identity(t[b]); m[a] = m[b]; break;
      case 13: { o << " modified copy"; t[a] = change<T>(t[b], v); m[a] = m[b]; if (m[a].size()) m[a].v.back() = v; break; }
      case 14: {
        o << " new tensor over the data of b with flat dimensions";
        if (m[b].rank() == 0) break;
        t[a] = Tensor<T>(Indices(igen << (tensor::index)m[b].size()), t[b]); Dims d{m[b].size()}; m[a] = m[b]; m[a].d = d; break;
      }
      case 15: { if (m[a].rank() == 0) break; Dims d{1, m[a].size(), 1}; o << " member reshape"; t[a].reshape(ix(d)); m[a].d = d; break; }
      case 16: {
        o << " member reshape with an index list that is changed afterwards";
        if (m[a].rank() == 0) break;
        Indices d = ix(Dims{m[a].size(), 1}); t[a].reshape(d); d.at(0) = 77; m[a].d = Dims{m[a].size(), 1}; break;
      }
      case 17: { o << " dimensions() copied and changed"; Indices d = t[a].dimensions(); for (long k = 0; k < d.size(); ++k) d.at(k) = 9; break; }
      case 18: { if (m[b].rank() == 0) break; o << " reshape()"; Dims d{m[b].size(), 1, 1}; t[a] = reshape(t[b], ix(d)); m[a] = m[b]; m[a].d = d; break; }
      case 19: { if (m[b].rank() == 0) break; o << " flatten()"; t[a] = flatten(t[b]); m[a] = m[b]; m[a].d = Dims{m[a].size()}; break; }
      case 20: { size_t k = S.draw(2); o << " to Vector " << k; vec[k] = t[a]; vm[k] = m[a].v; break; }
      case 21: { size_t k = S.draw(2); o << " from Vector " << k; t[a] = Tensor<T>(vec[k]); m[a] = Arr<T>(Dims{(long)vm[k].size()}); m[a].v = vm[k]; break; }
      case 22: { size_t k = S.draw(2); if (vm[k].size()) { long i = S.range(0, vm[k].size() - 1); o << " Vector " << k << " at " << i; if (vec[k].ref_count() > 1) shared_write = true; vec[k].at(i) = v; vm[k][i] = v; } break; }
      case 23: { size_t k = S.draw(2), l = S.draw(2); o << " Vector " << k << " = Vector " << l; vec[k] = vec[l]; vm[k] = vm[l]; break; }
      case 24: {
        size_t k = S.draw(2); long n = S.range(0, 6); o << " Vector " << k << " resize " << n;
        if (vec[k].ref_count() > 1) shared_write = true;
        vec[k].resize(n); vm[k].assign(n, v); for (long i = 0; i < n; ++i) vec[k].at(i) = v;
        break;
      }
      case 25: { o << " += "; if (a == b || m[a].d == m[b].d) { wr(a); auto mb = m[b]; t[a] += t[b]; for (long i = 0; i < m[a].size(); ++i) m[a].v[i] += mb.v[i]; } break; }
      case 26: { o << " -= "; if (a == b || m[a].d == m[b].d) { wr(a); auto mb = m[b]; t[a] -= t[b]; for (long i = 0; i < m[a].size(); ++i) m[a].v[i] -= mb.v[i]; } break; }
      case 27: {
        if (m[a].rank() == 0) break;
        int k = (int)S.draw(m[a].rank()); o << " scale_inplace " << k; wr(a);
        Arr<T> f(Dims{m[a].d[k]}, T(2.0)); Tensor<T> tf = mk(f);
        scale_inplace(t[a], k, tf); for (auto &x : m[a].v) x *= 2.0;
        break;
      }
      case 28: {
        if (m[a].rank() == 0) break;
        std::vector<Sel> e; for (long n : m[a].d) e.push_back(gen_sel(S, n));
        o << " slice write " << show(e); wr(a);
        for (long i : sel_positions(e, m[a].d)) m[a].v[i] = v;
        assign(t[a], e, v);
        break;
      }
      case 29: {
        if (m[b].rank() == 0) break;
        std::vector<Sel> e; for (long n : m[b].d) e.push_back(gen_sel(S, n));
        o << " slice read " << show(e);
        Arr<T> r; r.d = sel_dims(e); for (long i : sel_positions(e, m[b].d)) r.v.push_back(m[b].v[i]);
        t[a] = slice(t[b], e); m[a] = r;
        break;
      }
      case 30: {
        size_t k = S.draw(2); int w = (int)S.draw(6);
        o << " index list " << k << " op " << w;
        switch (w) {
          case 0: ind[k] = ind[1 - k]; im[k] = im[1 - k]; break;
          case 1: ind[k] = t[a].dimensions(); im[k] = m[a].d; break;
          case 2: if (im[k].size()) { long i = S.range(0, im[k].size() - 1); if (ind[k].ref_count() > 1) shared_write = true; ind[k].at(i) = fresh % 3; im[k][i] = fresh % 3; } break;
          case 3: if (im[k].size() && prod(im[k]) <= 60) { Tensor<T> n(ind[k]); n.fill_with(v); t[a] = n; m[a] = Arr<T>(im[k], v); } break;
          case 4: clobber(ind[k], 5); break;
          default: ind[k] = ind[0] << ind[1]; { Dims c = im[0]; c.insert(c.end(), im[1].begin(), im[1].end()); im[k] = c; } if (im[k].size() > 6) { im[k] = Dims{2}; ind[k] = ix(im[k]); }
        }
        break;
      }
      case 31: { o << " destroy and recreate"; t[a] = Tensor<T>(); m[a] = Arr<T>(); t.erase(t.begin() + a); m.erase(m.begin() + a); m.push_back(tag_arr<T>(adims(S), fresh)); fresh += 50; t.push_back(mk(m.back())); break; }
      case 32: { o << " std::swap"; std::swap(t[a], t[b]); std::swap(m[a], m[b]); break; }
      default: {
        o << " output argument";
        if (m[b].rank() == 0 || m[b].size() == 0 || a == b) break;
        wr(a);
        long n = m[b].d.back();
        // multiply by the identity on the last index: same contents
        Tensor<T> id = Tensor<T>::eye(n);
        if (S.coin()) t[a] = fold(t[b], -1, id, 0); else t[a] = mmult(t[b], id);
        expect_eq("product with the identity", t[a], m[b], NUM);
        m[a] = ld(t[a]);   // the sign of zeros is free
        break;
      }
    }
    NOTE(o.str());
    for (size_t k = 0; k < t.size(); ++k) expect_eq("step " + std::to_string(s) + " (" + o.str() + "): t" + std::to_string(k), t[k], m[k]);
    for (size_t k = 0; k < 2; ++k) {
      CHECK(vec[k].size() == (long)vm[k].size(), "step " << s << " (" << o.str() << "): Vector " << k << " has " << vec[k].size() << " elements instead of " << vm[k].size());
      for (size_t i = 0; i < vm[k].size(); ++i) CHECK(same_bits(vec[k][i], vm[k][i]), "step " << s << " (" << o.str() << "): Vector " << k << "[" << i << "] is " << vec[k][i] << " instead of " << vm[k][i]);
      expect_eq("step " + std::to_string(s) + " (" + o.str() + "): index list " + std::to_string(k), ld(ind[k]), im[k]);
    }
  }
  if (shared_write) { nontrivial(); label("write to shared storage"); }
}
template <class T> void history(Src &S) {
  history_body<T>(S);
}
TEST(history_R, 120000, 800000) { history<double>(S); }
TEST(history_C, 80000, 600000) { history<cd>(S); }

// Memory: the same history run three times; the second and third run must end where they began.
// (The generator's own buffers grow in the first run.)
struct Recorder { std::vector<uint64_t> c; };
template <class T> void churn(const std::vector<uint64_t> &c) {
  size_t p = 0;
  auto next = [&](uint64_t n) { uint64_t x = p < c.size() ? c[p++] : 0; return x % n; };
  std::vector<Tensor<T>> t(4);
  std::vector<Sparse<T>> sp(2);
  std::vector<Indices> in(2);
  std::vector<Booleans> bo(2);
  for (auto &x : t) { x = Tensor<T>(3, 4); x.fill_with(T(1.0)); }
  while (p < c.size()) {
    size_t a = next(4), b = next(4);
    switch (next(28)) {
      case 0: t[a] = t[b]; break;
      case 1: t[a].at_seq(next(12)) = T(2.0); break;
      case 2: t[a].at(range(), range(1)) = t[b](range(), range(2)); break;
      case 3: t[a].at(range(0, 1), range(0, 3, 2)) = T(0.0); break;
      case 4: { Indices i(2); i.at(0) = 2; i.at(1) = 0; Tensor<T> x = t[a](range(i), range()); break; }
      case 5: sp[a % 2] = Sparse<T>(t[b]); break;
      case 6: sp[a % 2] = sp[b % 2]; break;
      case 7: if (sp[a % 2].rows()) { t[b] = full(sp[a % 2]); } break;
      case 8: if (sp[0].rows() == 3 && sp[1].rows() == 3) sp[a % 2] = sp[0] + sp[1]; break;
      case 9: in[a % 2] = in[b % 2] << Indices(igen << 1 << 2); if (in[a % 2].size() > 20) in[a % 2] = Indices(); break;
      case 10: bo[a % 2] = (t[a] == t[b]); break;
      case 11: in[a % 2] = which(bo[b % 2]); break;
      case 12: t[a] += t[b]; break;
      case 13: t[a] = t[b] * T(2.0) - t[a]; break;
      case 14: { Tensor<T> x = fold(t[a], 0, t[b], 0); Tensor<T> y = kron(x, t[a]); break; }
      case 15: { Tensor<T> x = transpose(t[a]); t[a] = transpose(x); break; }
      case 16: { std::vector<Tensor<T>> v(t); v.push_back(t[a]); v.erase(v.begin()); t[b] = v[0]; break; }
      case 17: t[a] = Tensor<T>(t[b].dimensions(), t[b]); break;
      case 18: { Vector<T> v = t[a]; v.resize(12); std::fill(v.begin(), v.end(), T(1.0)); t[a] = Tensor<T>(Indices(igen << 3 << 4), Tensor<T>(v)); break; }
      case 19: t[a].at(range(), range()) = t[b](range(), range()); break;
      case 20: { CTensor x = to_complex(real(t[a])); CTensor y(real(t[b])); fftw_inplace(x, FFTW_FORWARD); y = fftshift(x, FFTW_FORWARD); break; }
      case 21: {   // memory lent by the caller
        T lent[12];
        for (auto &x : lent) x = T(1.0);
        { Vector<T> w(12, lent); Tensor<T> x(Indices(igen << 3 << 4), Tensor<T>(w)), y(x); if (next(2)) y.at_seq(next(12)) = T(3.0); x.fill_with(T(2.0)); t[a] = y; if (next(2)) { Vector<T> v(w); v.at(0) = T(5.0); Vector<T> u = w; std::fill(u.begin(), u.end(), T(1.0)); } t[a].at_seq(0) = T(1.0); }
        break;
      }
      case 22: {   // linear algebra
        Tensor<T> q = Tensor<T>::eye(5, 5), U, V;
        q.at(next(5), next(5)) = T(2.5);
        RTensor s = linalg::svd(q, &U, &V, next(2));
        CTensor R, L, e = linalg::eig(q, next(2) ? &R : 0, next(2) ? &L : 0);
        Tensor<T> x = linalg::solve(q, U), y = linalg::solve_with_svd(q, x), z = linalg::expm(q);
        RTensor es = linalg::eig_sym(q, &U);
        break;
      }
      case 23: {
        Tensor<T> q = Tensor<T>::zeros(6, 6), V;
        for (int i = 0; i < 6; ++i) q.at(i, i) = T(1.0 + i);
        Tensor<T> v = Tensor<T>::ones(igen << 6);
        linalg::eig_power_right(q, &v, 5, 1e-3);
        linalg::eig_power_left(Sparse<T>(q), &v, 5, 1e-3);
        Tensor<T> x = linalg::cgs(q, Tensor<T>::ones(igen << 6)), y = linalg::cgs(Sparse<T>(q), Tensor<T>::ones(igen << 6));
        break;
      }
      case 24: { std::ostringstream o; o << t[a] << in[0] << bo[0] << matrix_form(t[a]) << sp[0]; break; }
      case 25: { T sm = sum(t[a]); Tensor<T> y = mean(t[b], next(2)), z = permute(t[a], 0, 1), w = reshape(t[a], 2, 6), u = change_dimension(t[a], 1, 2 + next(4)), v = foldin(t[a], 0, t[b], 0), k = mmult(t[a], transpose(t[b])); Indices i = sort_indices(flatten(abs(t[a]))); break; }
      case 26: if (sp[0].rows() == 3 && sp[1].rows() == 3) { Sparse<T> x = kron(sp[0], sp[1]), y = transpose(sp[0]), z = sp[0] * sp[1] - sp[0]; Tensor<T> w = mmult(sp[0], transpose(t[a])), u = mmult(transpose(t[a]), sp[1]); if (x.length()) z = Sparse<T>(x.dimensions(), x.priv_row_start(), x.priv_column(), x.priv_data()); } break;
      default: { Tensor<T> x = squeeze(t[a](range(1), range())); Tensor<T> y = take_diag(t[a]); Tensor<T> z = diag(y); Tensor<T> w = scale(t[a], 0, y); }
    }
  }
}
template <class T> void leaks(Src &S) {
  std::vector<uint64_t> c;
  long n = S.range(3, 120);
  for (long i = 0; i < n; ++i) c.push_back(S.draw(28 * 12));
  NOTE("churn with choices " << show(c, 200));
  churn<T>(c);
  size_t b1 = allocated_bytes();
  churn<T>(c);
  size_t b2 = allocated_bytes();
  churn<T>(c);
  size_t b3 = allocated_bytes();
  CHECK(!(b2 > b1 && b3 > b2), "memory grows by " << b2 - b1 << " and " << b3 - b2 << " bytes each time the same history is repeated");
  if (n > 6) nontrivial();
}
TEST(leaks_R, 20000, 200000) { leaks<double>(S); }
TEST(leaks_C, 20000, 200000) { leaks<cd>(S); }

// external data wrapped by a Vector
TEST(wrapped, 20000, 120000) {
  long n = S.range(1, 6);
  std::vector<double> buf(n), orig;
  for (long i = 0; i < n; ++i) buf[i] = i + 1;
  orig = buf;
  {
    Vector<double> w(n, buf.data());
    CHECK(w.size() == n, "size of a wrapped vector");
    std::vector<Tensor<double>> t;
    std::vector<std::vector<double>> m;
    int steps = (int)S.range(1, 10);
    for (int s = 0; s < steps; ++s) {
      switch (S.draw(3)) {
        case 0: t.push_back(Tensor<double>(w)); m.push_back(orig); NOTE("t" << t.size() - 1 << " = Tensor(w)"); break;
        case 1: if (t.size()) { size_t k = S.draw(t.size()); long i = S.range(0, n - 1); NOTE("t" << k << " at " << i); t[k].at_seq(i) = 100 + s; m[k][i] = 100 + s; nontrivial(); } break;
        default: if (t.size()) { size_t k = S.draw(t.size()); Tensor<double> c = t[k]; c.fill_with(-1); NOTE("copy of t" << k << " refilled"); }
      }
      for (size_t k = 0; k < t.size(); ++k)
        for (long i = 0; i < n; ++i) CHECK(t[k][i] == m[k][i], "t" << k << "[" << i << "] is " << t[k][i] << " instead of " << m[k][i]);
      CHECK(buf == orig, "the wrapped data changed while another object refers to it");
    }
  }
  CHECK(buf == orig, "the wrapped data changed");
}

// sparse matrices and boolean lists
template <class T> void sparse_hist(Src &S) {
  std::vector<Sparse<T>> sp;
  std::vector<Arr<T>> m;
  auto fresh = [&] { Dims d{S.range(1, 4), S.range(1, 4)}; Arr<T> a(d); for (auto &x : a.v) if (S.coin()) x = gen_val<T>(S, V_INT); return a; };
  for (int i = 0; i < 3; ++i) { m.push_back(fresh()); sp.push_back(Sparse<T>(mk(m.back()))); }
  std::vector<Booleans> bo(2);
  std::vector<std::vector<char>> bm(2);
  int steps = (int)S.range(1, 20);
  for (int s = 0; s < steps; ++s) {
    size_t a = S.draw(3), b = S.draw(3);
    switch (S.draw(10)) {
      case 0: NOTE("s" << a << " = s" << b); sp[a] = sp[b]; m[a] = m[b]; break;
      case 1: NOTE("s" << a << " copy"); { Sparse<T> c(sp[b]); sp[a] = c; m[a] = m[b]; } break;
      case 2: {  // write the stored values through the public member
        long k = sp[a].length();
        if (!k) break;
        long i = S.range(0, k - 1);
        NOTE("s" << a << ".data_.at(" << i << ")");
        if (sp[a].data_.ref_count() > 1) nontrivial();
        T v = tag<T>(50 + s);
        sp[a].data_.at(i) = v;
        long q = 0;
        for (long r = 0; r < m[a].d[0]; ++r) for (long c = 0; c < m[a].d[1]; ++c) if (m[a](r, c) != T(0.0)) if (q++ == i) m[a](r, c) = v;
        break;
      }
      case 3: { NOTE("t = priv_data of s" << a << ", changed"); Tensor<T> t = sp[a].priv_data(); nontrivial(); t.fill_with(T(7.0)); break; }
      case 4: { NOTE("full of s" << a << ", changed"); Tensor<T> t = full(sp[a]); t.fill_with(T(7.0)); break; }
      case 5: { NOTE("from dense that is changed later"); m[a] = fresh(); Tensor<T> t = mk(m[a]); sp[a] = Sparse<T>(t); t.fill_with(T(3.0)); break; }
      case 6: {
        NOTE("from parts that are changed later");
        Tensor<T> d = sp[b].priv_data(); Indices dims = sp[b].priv_dims(), rs = sp[b].priv_row_start(), co = sp[b].priv_column();
        sp[a] = Sparse<T>(dims, rs, co, d); m[a] = m[b];
        nontrivial();
        d.fill_with(T(9.0)); for (long i = 0; i < rs.size(); ++i) rs.at(i) = 0; for (long i = 0; i < co.size(); ++i) co.at(i) = 0; dims.at(0) = 77;
        break;
      }
      case 7: NOTE("s" << a << " = conj/real of s" << b << ", -s"); { Sparse<T> c = -sp[b]; Sparse<T> e = sp[b] * T(2.0); (void)c; (void)e; } break;
      case 8: { size_t k = S.draw(2); NOTE("b" << k << " new"); long n = S.range(0, 5); bo[k] = Booleans(n); bm[k].assign(n, 0); for (long i = 0; i < n; ++i) { bool v = S.coin(); bo[k].at(i) = v; bm[k][i] = v; } break; }
      default: { size_t k = S.draw(2); NOTE("b" << k << " = b" << 1 - k << ", then changed"); bo[k] = bo[1 - k]; bm[k] = bm[1 - k]; if (bm[k].size()) { Booleans c(bo[k]); long i = S.range(0, bm[k].size() - 1); nontrivial(); bo[k].at(i) = !bo[k][i]; bm[k][i] ^= 1; CHECK(c[i] != bo[k][i], "copy of a boolean list changed"); } }
    }
    for (size_t k = 0; k < 3; ++k) expect_eq("s" + std::to_string(k), full(sp[k]), m[k]);
    for (size_t k = 0; k < 2; ++k) expect_eq("boolean list " + std::to_string(k), ldb(bo[k]), bm[k]);
  }
}
TEST(sparse_R, 30000, 200000) { sparse_hist<double>(S); }
TEST(sparse_C, 20000, 150000) { sparse_hist<cd>(S); }

// blocks whose size in bytes does not fit in 31 bits are copied whole
TEST(large_blocks, 2, 3) {
  int what = (int)S.draw(3);
  long n = what == 1 ? (1L << 27) + 5 : (1L << 28) + 3;
  static const char *W[] = {"real tensor", "complex tensor", "index list"};
  NOTE(W[what] << " of " << n << " elements, copied and written");
  label(W[what]);
  nontrivial();
  auto run = [&](auto first, auto val) {
    auto put = [&](long i, long v) { first.at(i) = val(v); };
    long q[] = {0, 1, n / 2, (1L << 26) + 1, n - 2, n - 1};
    for (long i : q) put(i, i % 1000 + 1);
    auto copy = first;
    put(0, 5); put(n - 1, 6);
    CHECK(first.size() == n && copy.size() == n, "the copy has " << copy.size() << " elements instead of " << n);
    for (long i : q) {
      CHECK(copy[i] == val(i % 1000 + 1), "element " << i << " of the copy is " << copy[i]);
      CHECK(first[i] == val(i == 0 ? 5 : i == n - 1 ? 6 : i % 1000 + 1), "element " << i << " of the written object is " << first[i]);
    }
  };
  if (what == 0) run(RTensor(ix(Dims{n})), [](long v) { return (double)v; });
  else if (what == 1) run(CTensor(ix(Dims{n})), [](long v) { return cd((double)v, 1); });
  else run(Indices(n), [](long v) { return v; });
}

// more objects sharing one block than any small counter can count
template <class O, class W, class C> void crowd_of(Src &S, const char *name, const O &first, W write, C check) {
  long n = S.coin() ? S.range(2, 70) : S.elem({127L, 128L, 129L, 255L, 256L, 257L, 258L, 32767L, 32768L, 32769L, 65535L, 65536L, 65537L, 65538L});
  NOTE(n << " copies of " << name);
  label(std::string(name) + (n > 32000 ? " tens of thousands" : n > 100 ? " hundreds" : " a few"));
  nontrivial();
  {
    O origin(first);
    write(origin, 1);   // an object of its own
    std::vector<O> v;
    v.reserve(n);
    for (long i = 0; i < n; ++i) v.push_back(i && S.coin(1, 50) ? v[i / 2] : origin);
    std::vector<long> want(n, 1);
    long orig = 1;
    int steps = (int)S.range(1, 6);
    for (int s = 0; s < steps; ++s) {
      long k = S.coin(1, 4) ? n - 1 : S.range(0, n - 1), val = s + 2;
      switch (S.draw(4)) {
        case 0: NOTE("origin written"); write(origin, val); orig = val; break;
        case 1: NOTE("copy " << k << " written"); write(v[k], val); want[k] = val; break;
        case 2: { NOTE("copy " << k << " destroyed and replaced"); v[k] = O(); v[k] = origin; want[k] = orig; break; }
        default: { long drop = S.range(0, n - 1); NOTE(drop << " copies destroyed"); v.resize(n - drop); want.resize(n - drop); n -= drop; if (!n) s = steps; }
      }
      CHECK(check(origin, orig), name << ": the original changed");
      for (long i = 0; i < n; ++i) CHECK(check(v[i], want[i]), name << ": copy " << i << " changed");
    }
  }
}
TEST(crowd, 3000, 30000) {
  switch (S.draw(6)) {
    case 0: crowd_of(S, "a real tensor", RTensor::zeros(2, 2), [](RTensor &t, long v) { t.at(1, 0) = v; }, [](const RTensor &t, long v) { return t.size() == 4 && t(1, 0) == v && t(0, 0) == 0; }); break;
    case 1: crowd_of(S, "a complex tensor", CTensor(Indices(igen << 3)), [](CTensor &t, long v) { t.fill_with_zeros(); t.at(2) = cd(0, v); }, [](const CTensor &t, long v) { return t.size() == 3 && t(2) == cd(0, v) && t(0) == cd(0); }); break;
    case 2: crowd_of(S, "an index list", Indices(igen << 0 << 0), [](Indices &t, long v) { t.at(1) = v; }, [](const Indices &t, long v) { return t.size() == 2 && t[1] == v && t[0] == 0; }); break;
    case 3: crowd_of(S, "a vector", Vector<double>(RTensor::zeros(2, 1)), [](Vector<double> &t, long v) { t.at(0) = v; }, [](const Vector<double> &t, long v) { return t.size() == 2 && t[0] == v && t[1] == 0; }); break;
    case 4: crowd_of(S, "a reshaped tensor", RTensor::zeros(2, 3), [](RTensor &t, long v) { t.at_seq(5) = v; t.reshape(Indices(igen << 3 << 2)); }, [](const RTensor &t, long v) { return t.rows() == 3 && t(2, 1) == v && t(0, 0) == 0; }); break;
    default: crowd_of(S, "a sparse matrix", RSparse(RTensor(RTensor::ones(2, 2))), [](RSparse &t, long v) { t.data_.at(3) = v; }, [](const RSparse &t, long v) { return t.length() == 4 && t(1, 1) == v && t(0, 1) == 1; });
  }
}
