#include "la.h"
#include <tensor/fftw.h>
using namespace tensor;
const char *pbt::PROPERTY = "C24";
const char *pbt::RULE =
    "Complex tensors of rank 1-10 with sizes 1-64 per index (odd, even, prime, powers of two), random, impulse, constant and plane-wave data; all three ways of selecting the "
    "dimensions, both directions, in place and out of place, on data shared with other tensors; the result is compared with the Fourier sum evaluated directly in extended "
    "precision, shifts with the index formula exactly. Non-trivial: at least two transformed elements and data that is not constant.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"tensors have at least one element", "both directions are unnormalised, as the header documents"};
typedef std::complex<long double> Lc;
// direct Fourier sum along the selected dimensions
static Arr<cd> dft(const Arr<cd> &a, const std::vector<char> &sel, int dir) {
  std::vector<Lc> x(a.v.begin(), a.v.end()), y(x.size());
  const long double tau = 6.283185307179586476925286766559L;
  long stride = 1;
  for (size_t k = 0; k < a.d.size(); ++k) {
    long n = a.d[k];
    if (sel[k] && n > 1) {
      std::vector<Lc> w(n);
      for (long j = 0; j < n; ++j) w[j] = Lc(cosl(tau * j / n), dir * sinl(tau * j / n));
      for (long o = 0; o < (long)x.size(); ++o) {
        long i = (o / stride) % n, base = o - i * stride;
        Lc s = 0;
        for (long j = 0; j < n; ++j) s += x[base + j * stride] * w[(i * j) % n];
        y[o] = s;
      }
      x.swap(y);
    }
    stride *= n;
  }
  Arr<cd> r(a.d);
  for (size_t i = 0; i < x.size(); ++i) r.v[i] = cd((double)x[i].real(), (double)x[i].imag());
  return r;
}
static Dims fft_dims(Src &S) {
  if (S.coin(1, 400)) return Dims{S.coin() ? S.range(65, 1100) : S.elem({1024L, 2048L, 4096L, 5040L, 6561L, 2503L})};
  if (S.coin(1, 400)) return Dims{S.range(1, 70), S.range(1, 70)};
  if (S.coin(1, 80)) return gen_deep(S, 6, 10, false);
  switch (S.weighted({3, 2, 1})) {
    case 0: return gen_dims(S, 1, 5, 7, false, 300);
    case 1: return Dims{S.range(1, 64)};
    default: return gen_dims(S, 2, 3, 17, false, 300);
  }
}
static Arr<cd> fft_data(Src &S, Lcg &g, const Dims &d) {
  Arr<cd> a = rnd_arr<cd>(g, d);
  switch (S.weighted({5, 1, 1, 1})) {
    case 0: return a;
    case 1: { Arr<cd> e(d); e.v[g.next() % e.v.size()] = 1; return e; }
    case 2: for (auto &x : a.v) x = cd((double)(long)(g.next() % 7) - 3.0, 0); return a;
    default: { cd w = std::polar(1.0, 6.283185307179586 * (double)(g.next() % 16) / 16); cd z = 1; for (auto &x : a.v) { x = z; z *= w; } return a; }
  }
}
static std::vector<char> selection(Src &S, const Dims &d, int *form, long *dim) {
  *form = (int)S.draw(3);
  std::vector<char> sel(d.size(), 0);
  *dim = (long)S.draw(d.size());
  for (size_t k = 0; k < d.size(); ++k) sel[k] = *form == 0 ? 1 : *form == 1 ? (long)k == *dim : (char)S.draw(2);
  return sel;
}
static Booleans mkb(const std::vector<char> &sel) {
  Booleans b((tensor::index)sel.size());
  for (size_t k = 0; k < sel.size(); ++k) b.at(k) = sel[k];
  return b;
}
static CTensor run(int form, const CTensor &t, long dim, const Booleans &b, int dir) { return form == 0 ? fftw(t, dir) : form == 1 ? fftw(t, dim, dir) : fftw(t, b, dir); }
static void run_in(int form, CTensor &t, long dim, const Booleans &b, int dir) { if (form == 0) fftw_inplace(t, dir); else if (form == 1) fftw_inplace(t, dim, dir); else fftw_inplace(t, b, dir); }

TEST(fft, 120000, 1200000) {
  Lcg g(S);
  Dims d = fft_dims(S);
  Arr<cd> a = fft_data(S, g, d);
  int form;
  long dim;
  std::vector<char> sel = selection(S, d, &form, &dim);
  Booleans b = mkb(sel);
  int dir = S.coin() ? FFTW_BACKWARD : FFTW_FORWARD;
  CTensor t = mk(a), shared = t;
  long N = 1;
  for (size_t k = 0; k < d.size(); ++k) if (sel[k]) N *= d[k];
  NOTE("fftw dims " << show(d) << " selected " << show(sel) << (form == 0 ? " all" : form == 1 ? " one" : " set") << (dir == FFTW_FORWARD ? " forward " : " backward ") << show(a));
  bool constant = true;
  for (auto &x : a.v) constant &= x == a.v[0];
  if (N > 1 && !constant) nontrivial();
  label(form == 0 ? "all dimensions" : form == 1 ? "one dimension" : "set of dimensions");
  Arr<cd> want = dft(a, sel, dir == FFTW_FORWARD ? -1 : 1);
  double nrm = frob(a), e1 = 40 * EPS * (2 + std::log2((double)N)) * std::sqrt((double)N) * nrm;
  std::vector<double> bound(a.v.size(), e1);
  CTensor out = run(form, t, dim, b, dir);
  expect_close("transform", ld(out), want, bound);
  expect_eq("the argument afterwards", t, a);
  expect_eq("a copy of the argument afterwards", shared, a);
  // in place, on data shared with another tensor
  CTensor in = t;
  run_in(form, in, dim, b, dir);
  expect_close("transform in place", ld(in), want, bound);
  expect_eq("a tensor that shared data with the one transformed in place", t, a);
  expect_eq("another such tensor", shared, a);
  // the other direction undoes it up to the number of transformed elements
  CTensor back = run(form, out, dim, b, -dir);
  Arr<cd> scaled = a;
  for (auto &x : scaled.v) x *= (double)N;
  expect_close("transform and back", ld(back), scaled, std::vector<double>(a.v.size(), 3 * e1 * std::sqrt((double)N)));
  run_in(form, out, dim, b, -dir);
  expect_close("transform and back in place", ld(out), scaled, std::vector<double>(a.v.size(), 3 * e1 * std::sqrt((double)N)));
  if (S.coin(1, 200)) {
    if (S.coin()) must_refuse("transform of dimension " + std::to_string(d.size()), [&] { fftw(t, (tensor::index)d.size(), dir); });
    else { Booleans w((tensor::index)d.size() + 1); must_refuse("transform with a selection of the wrong length", [&] { CTensor u = t; fftw_inplace(u, w, dir); }); }
  }
}
TEST(shift, 90000, 800000) {
  Dims d = S.coin(1, 1500) ? gen_huge(S, 1, 3) : S.coin(1, 80) ? gen_deep(S, 6, 10, false) : S.coin(1, 3) ? Dims{S.range(1, 30)} : gen_dims(S, 1, 5, 9, false, 300);
  Arr<cd> a = tag_arr<cd>(d);
  int form;
  long dim;
  std::vector<char> sel = selection(S, d, &form, &dim);
  Booleans b = mkb(sel);
  CTensor t = mk(a), shared = t;
  NOTE("fftshift dims " << show(d) << " selected " << show(sel) << (form == 0 ? " all" : form == 1 ? " one" : " set"));
  bool odd = false, moves = false;
  for (size_t k = 0; k < d.size(); ++k) if (sel[k] && d[k] > 1) { moves = true; odd |= d[k] & 1; }
  if (moves) nontrivial();
  label(odd ? "odd size" : moves ? "even sizes" : "nothing to move");
  Arr<cd> want(d);
  Dims i(d.size(), 0), j(d.size());
  do {
    for (size_t k = 0; k < d.size(); ++k) j[k] = sel[k] ? (i[k] + d[k] / 2) % d[k] : i[k];
    want.v[offset(j, d)] = a.v[offset(i, d)];
  } while (next_index(i, d));
  CTensor out = form == 0 ? fftshift(t, FFTW_FORWARD) : form == 1 ? fftshift(t, dim, FFTW_FORWARD) : fftshift(t, b, FFTW_FORWARD);
  expect_eq("shift", out, want);
  expect_eq("the argument afterwards", t, a);
  CTensor keep = out, back = form == 0 ? fftshift(out, FFTW_BACKWARD) : form == 1 ? fftshift(out, dim, FFTW_BACKWARD) : fftshift(out, b, FFTW_BACKWARD);
  expect_eq("shift and back", back, a);
  expect_eq("the shifted tensor afterwards", keep, want);
  CTensor back2 = form == 0 ? fftshift(t, FFTW_BACKWARD) : form == 1 ? fftshift(t, dim, FFTW_BACKWARD) : fftshift(t, b, FFTW_BACKWARD);
  expect_eq("back and shift", form == 0 ? fftshift(back2, FFTW_FORWARD) : form == 1 ? fftshift(back2, dim, FFTW_FORWARD) : fftshift(back2, b, FFTW_FORWARD), a);
  // the results do not share storage with the argument
  back.at(0) = cd(-7, 7);
  out.at(0) = cd(-7, 7);
  expect_eq("the argument after writing to the results", t, a);
  if (S.coin(1, 200)) must_refuse("shift of dimension " + std::to_string(d.size()), [&] { fftshift(t, (tensor::index)d.size(), FFTW_FORWARD); });
}
