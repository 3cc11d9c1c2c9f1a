// Structured random matrices with known decompositions, for the linear algebra checks.
#ifndef PBT_LA_H
#define PBT_LA_H
#include "sp.h"
#include <algorithm>
namespace pbt {
static const double EPS = 2.220446049250313e-16;
template <class T> T gen_entry(Src &S);
template <> inline double gen_entry<double>(Src &S) { return (double)((long)S.draw(2001) - 1000) / 1000.0; }
template <> inline cd gen_entry<cd>(Src &S) { double a = gen_entry<double>(S), b = gen_entry<double>(S); return cd(a, b); }
// expands a few draws into many numbers: a case stays short however large the matrix
struct Lcg {
  uint64_t s;
  explicit Lcg(Src &S) : s(S.bits64()) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (double)(next() >> 11) / 9007199254740992.0; }
  double s1() { return 2 * u() - 1; }
};
template <class T> T rnd(Lcg &g);
template <> inline double rnd<double>(Lcg &g) { return g.s1(); }
template <> inline cd rnd<cd>(Lcg &g) { double a = g.s1(), b = g.s1(); return cd(a, b); }
// small (Gaussian) integers: exact cancellations, purely imaginary numbers, re + im = 0
template <class T> T rint_(Lcg &g, long m);
template <> inline double rint_<double>(Lcg &g, long m) { return (double)((long)(g.next() % (2 * m + 1)) - m); }
template <> inline cd rint_<cd>(Lcg &g, long m) { double a = rint_<double>(g, m), b = rint_<double>(g, m); return cd(a, b); }
template <class T> T rint_nz(Lcg &g, long m) { for (;;) { T x = rint_<T>(g, m); if (x != T(0)) return x; } }
template <class T> Arr<T> rnd_arr(Lcg &g, const Dims &d) { Arr<T> a(d); for (auto &x : a.v) x = rnd<T>(g); return a; }

// n x k matrix with orthonormal columns (Gram-Schmidt, twice)
template <class T> Arr<T> orth(Lcg &g, long n, long k) {
  Arr<T> q(Dims{n, k});
  for (long j = 0; j < k; ++j) {
    for (int attempt = 0; attempt < 20; ++attempt) {
      for (long i = 0; i < n; ++i) q(i, j) = rnd<T>(g);
      double nrm = 0;
      for (int rep = 0; rep < 3; ++rep) {
        for (long c = 0; c < j; ++c) {
          T p = 0;
          for (long i = 0; i < n; ++i) p += cj(q(i, c)) * q(i, j);
          for (long i = 0; i < n; ++i) q(i, j) -= p * q(i, c);
        }
        nrm = 0;
        for (long i = 0; i < n; ++i) nrm += std::norm(q(i, j));
        nrm = std::sqrt(nrm);
        if (rep == 0 && nrm < 1e-4) break;
        for (long i = 0; i < n; ++i) q(i, j) /= nrm;
      }
      if (nrm > 1e-4) break;
    }
  }
  return q;
}
// a unitary of one of several structures: random, identity, permutation (with signs), block
template <class T> Arr<T> unitary(Src &S, Lcg &g, long n) {
  switch (S.weighted({1, 1, 4})) {
    case 0: return ident<T>(n);
    case 1: {
      Arr<T> q(Dims{n, n});
      std::vector<long> p(n);
      for (long i = 0; i < n; ++i) p[i] = i;
      for (long i = n - 1; i > 0; --i) std::swap(p[i], p[g.next() % (i + 1)]);
      for (long i = 0; i < n; ++i) q(p[i], i) = (g.next() & 1) ? T(1) : T(-1);
      return q;
    }
    default: return orth<T>(g, n, n);
  }
}
template <class T> Arr<T> diag_of(const std::vector<T> &v, long r, long c) { Arr<T> a(Dims{r, c}); for (size_t i = 0; i < v.size(); ++i) a(i, i) = v[i]; return a; }
// view of any tensor as a matrix with the first dimension as rows
template <class T> Arr<T> as_mat(const Arr<T> &b) { Arr<T> r = b; long n = b.d[0]; r.d = Dims{n, n ? b.size() / n : 0}; return r; }
template <class T> Arr<T> axpy(const Arr<T> &a, T s, const Arr<T> &b) { Arr<T> r = a; for (size_t i = 0; i < r.v.size(); ++i) r.v[i] += s * b.v[i]; return r; }
template <class T> double colnorm(const Arr<T> &a, long j) { double s = 0; for (long i = 0; i < a.d[0]; ++i) s += std::norm(a(i, j)); return std::sqrt(s); }
template <class T> T inner(const std::vector<T> &a, const std::vector<T> &b) { T s = 0; for (size_t i = 0; i < a.size(); ++i) s += cj(a[i]) * b[i]; return s; }
template <class T> Arr<T> col(const Arr<T> &a, long j) { Arr<T> r(Dims{a.d[0]}); for (long i = 0; i < a.d[0]; ++i) r.v[i] = a(i, j); return r; }
template <class T> Arr<T> mv(const Arr<T> &a, const Arr<T> &x) { Arr<T> xm = x; xm.d = Dims{x.size(), 1}; Arr<T> r = mm(a, xm); r.d = Dims{a.d[0]}; return r; }
inline Arr<double> to(const Arr<double> &a, double) { return a; }
inline Arr<cd> to(const Arr<double> &a, cd) { return cplx(a); }
// size of a problem: mostly small, sometimes past the blocking sizes of the libraries
inline long la_size(Src &S, long lo = 1) { return S.coin(1, 600) ? S.range(51, 130) : S.coin(1, 40) ? S.range(13, 50) : S.coin(1, 4) ? S.range(std::max(lo, 5L), 12) : S.range(lo, 5); }
inline void same_eps(const std::string &what, double err, double bound) {
  if (!(err <= bound)) FAIL(what << ": error " << err << " above " << bound);
}
}  // namespace pbt
#endif
