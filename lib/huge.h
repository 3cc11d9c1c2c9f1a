// Tensors with more elements than 32-bit numbers count, over memory that is reserved but hardly touched.
#ifndef PBT_HUGE_H
#define PBT_HUGE_H
#include "rank.h"
#include <sys/mman.h>
namespace pbt {
static const size_t HUGE_BYTES = 35ull << 30;
inline char *huge_base() {
  static char *p = 0;
  if (!p) {
    void *q = mmap(0, HUGE_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q != MAP_FAILED) { p = (char *)q; madvise(p, HUGE_BYTES, MADV_NOHUGEPAGE); }
  }
  if (!p) DISCARD();
  madvise(p, HUGE_BYTES, MADV_DONTNEED);   // all zeros again
  return p;
}
// dimensions with at least one long one, all elements within the reserved memory
template <class T> Dims huge_dims(Src &S, long rmin, long rmax) {
  long r = S.range(rmin, rmax), cap = (long)(HUGE_BYTES / sizeof(T)), lo = 1;
  Dims d(r, 1);
  for (auto &n : d) n = S.range(1, 4);
  size_t k = S.draw(r), l = S.draw(r);
  d[k] = 1;
  if (l != k) d[l] = S.elem({1L, 2L, 3L, 1000L, 46341L, 65536L, 65537L});
  long rest = prod(d), top = cap / rest;
  switch (S.draw(3)) {
    case 0: d[k] = top - S.range(0, 5); break;
    case 1: d[k] = std::min(top, (1L << 31) / rest + 1 + S.range(0, 5)); break;
    default: d[k] = S.range(top / 2, top);
  }
  (void)lo;
  return d;
}
template <class T> tensor::Tensor<T> huge_tensor(const Dims &d, char *base) {
  return tensor::Tensor<T>(ix(d), tensor::Tensor<T>(tensor::Vector<T>(prod(d), (T *)base)));
}
// a few positions of a long dimension
inline long huge_pos(Src &S, long n) { return S.coin(1, 4) ? n - 1 - (long)S.draw(std::min(n, 3L)) : S.coin(1, 4) ? (long)S.draw(std::min(n, 3L)) : S.range(0, n - 1); }
inline Sel huge_sel(Src &S, long n) {
  if (n <= 8) return gen_sel(S, n);
  Sel e; e.a = e.b = 0; e.s = 1;
  auto neg = [&](long i) { return S.coin(1, 4) ? i - n : i; };
  e.kind = 1 + (int)S.draw(4);
  switch (e.kind) {
    case 1: { long i = huge_pos(S, n); e.pos.push_back(i); e.a = neg(i); break; }
    case 2: { long a = huge_pos(S, n), b = std::min(n - 1, a + (long)S.draw(4)); for (long i = a; i <= b; ++i) e.pos.push_back(i); e.a = neg(a); e.b = neg(b); break; }
    case 3: { long a = huge_pos(S, n), b = huge_pos(S, n); if (a > b) std::swap(a, b); e.s = std::max(1L, (b - a) / S.range(1, 5)); for (long i = a; i <= b; i += e.s) e.pos.push_back(i); e.a = neg(a); e.b = neg(b); break; }
    default: for (long k = S.range(0, 4); k > 0; --k) { long p = huge_pos(S, n); e.pos.push_back(p); e.list.push_back(neg(p)); }
  }
  return e;
}
}  // namespace pbt
#endif
