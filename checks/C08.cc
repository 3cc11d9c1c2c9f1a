#include "gen.h"
using namespace tensor;
const char *pbt::PROPERTY = "C08";
const char *pbt::RULE =
    "Random vectors of length 0-300, now and then tens of thousands, with all values distinct, drawn from small sets (ties), presorted/reversed/organ-pipe patterns, "
    "infinities, subnormals, and integers near 2^53 and at the ends of the 64-bit range. Non-trivial: two or more elements, not all equal.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"NaN is excluded: it has no order", "the order among equal elements in the permutation is free; complex sorting is declared but not part of the library"};

template <class T> T gen_key(Src &S, int k, long i, long n);
template <> double gen_key<double>(Src &S, int k, long i, long n) {
  switch (k) {
    case 0: return (double)S.sint(2);
    case 1: return (double)i;
    case 2: return (double)(n - i);
    case 3: return (double)std::min(i, n - i);
    case 4: return S.unit();
    case 5: return (double)S.sint(50);
    default: { double x; do x = S.elem(SPECIALS); while (std::isnan(x)); return x; }
  }
}
template <> long gen_key<long>(Src &S, int k, long i, long n) {
  static const long BIG[] = {0, 1, -1, 9007199254740992L, 9007199254740993L, 9007199254740994L, 9007199254740995L, -9007199254740993L, -9007199254740992L, 9223372036854775807L, 9223372036854775806L, -9223372036854775807L, -9223372036854775807L - 1, 4294967296L, 2147483648L};
  switch (k) {
    case 0: return S.sint(2);
    case 1: return i;
    case 2: return n - i;
    case 3: return std::min(i, n - i);
    case 4: return (1L << 60) + S.sint(20);
    case 5: return S.sint(50);
    default: return S.elem(BIG);
  }
}
inline RTensor make(const std::vector<double> &v) { Arr<double> a(Dims{(long)v.size()}); a.v = v; return mk(a); }
inline Indices make(const std::vector<long> &v) { return ix(v); }
template <class V> auto toVec(const V &t) { std::vector<typename V::elt_t> r; for (long i = 0; i < t.size(); ++i) r.push_back(t[i]); return r; }

template <class T> void sorting(Src &S) {
  long n = S.coin(1, 4000) ? (S.coin() ? S.range(1000, 9000) : S.range(65000, 70000)) : S.coin(1, 6) ? S.range(0, 300) : S.range(0, 24);
  int k = (int)S.draw(7);
  bool rev = S.coin();
  std::vector<T> v;
  for (long i = 0; i < n; ++i) v.push_back(gen_key<T>(S, k, i, n));
  NOTE("sort " << (rev ? "reversed " : "") << show(v, 400));
  label("kind " + std::to_string(k) + (rev ? " reversed" : ""));
  label(n > 900 ? "very long" : n > 16 ? "long" : "short");
  std::vector<T> want = v;
  std::sort(want.begin(), want.end());
  if (rev) std::reverse(want.begin(), want.end());
  if (n >= 2 && want.front() != want.back()) nontrivial();
  auto t = make(v);
  auto copy = t;
  auto r = rev || S.coin() ? sort(t, rev) : sort(t);
  auto got = toVec(r);
  CHECK(got == want, "sort gives " << show(got, 400) << " instead of " << show(want, 400));
  std::vector<T> g2 = got, w2 = v;   // same multiset, signs of zeros included
  auto key = [](const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) < 0; };
  std::sort(g2.begin(), g2.end(), key); std::sort(w2.begin(), w2.end(), key);
  CHECK(n == 0 || memcmp(g2.data(), w2.data(), n * sizeof(T)) == 0, "sort does not return the same values: " << show(got, 400));
  Indices p = rev || S.coin() ? sort_indices(t, rev) : sort_indices(t);
  CHECK(p.size() == n, "the sorting permutation has " << p.size() << " entries instead of " << n);
  std::vector<char> seen(n, 0);
  for (long i = 0; i < n; ++i) {
    CHECK(p[i] >= 0 && p[i] < n && !seen[p[i]], "the sorting permutation is not a permutation: " << show(p));
    seen[p[i]] = 1;
    CHECK(v[p[i]] == want[i], "position " << i << " of the permutation refers to " << v[p[i]] << " instead of " << want[i]);
  }
  CHECK(toVec(t) == v, "the argument was modified"); CHECK(toVec(copy) == v, "a copy of the argument was modified");
}
TEST(sort_R, 1200000, 7200000) { sorting<double>(S); }
TEST(sort_I, 1200000, 7200000) { sorting<long>(S); }
