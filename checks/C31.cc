#include "sp.h"
#include <random>
#include <set>
#include <unistd.h>
#include <tensor/rand.h>
#include "rand/mt.h"
using namespace tensor;
const char *pbt::PROPERTY = "C31";
const char *pbt::RULE =
    "Random seeds (integers, key arrays of 1-700 words, the RANDSEED variable) and sequences of mixed requests with reseeding in between, compared with a second implementation of the published generator; "
    "key arrays computed so that the generator's first 156 words are chosen ones (all ones, zero, values next to multiples of the bound); bounds of all sizes up to the largest; tensors and sparse matrices of random shapes. "
    "Non-trivial: at least 5 requests or a state refill is crossed.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "the 64-bit generator is the one built (as on this platform)", "bounds are positive and lower limits do not exceed upper ones", "which of the two words of a complex number is the real part is not specified, but it is always the same",
    "how bounded requests are reduced from the stream is not specified: they must be in range, reproducible and cover small ranges evenly"};

// the published MT19937-64, in the standard library for integer seeds and written again here for arrays
struct Ref {
  static const int N = 312;
  uint64_t s[N];
  int p;
  void seed(uint64_t x) {
    s[0] = x;
    for (int i = 1; i < N; ++i) s[i] = 6364136223846793005ULL * (s[i - 1] ^ (s[i - 1] >> 62)) + (uint64_t)i;
    p = N;
  }
  static uint64_t f1(uint64_t v) { return (v ^ (v >> 62)) * 3935559000370003845ULL; }
  static uint64_t f2(uint64_t v) { return (v ^ (v >> 62)) * 2862933555777941757ULL; }
  void seed(const std::vector<uint64_t> &key) {
    seed(19650218ULL);
    long i = 1, n = (long)key.size(), j = 0;
    for (long k = std::max<long>(N, n); k > 0; --k) {
      s[i] = (s[i] ^ f1(s[i - 1])) + key[j] + (uint64_t)j;
      if (++i >= N) { s[0] = s[N - 1]; i = 1; }
      if (++j >= n) j = 0;
    }
    for (long k = N - 1; k > 0; --k) {
      s[i] = (s[i] ^ f2(s[i - 1])) - (uint64_t)i;
      if (++i >= N) { s[0] = s[N - 1]; i = 1; }
    }
    s[0] = 1ULL << 63;
    p = N;
  }
  static uint64_t twist(uint64_t a, uint64_t b) {
    uint64_t x = (a & 0xFFFFFFFF80000000ULL) | (b & 0x7FFFFFFFULL);
    return (x >> 1) ^ ((x & 1) ? 0xB5026F5AA96619E9ULL : 0);
  }
  uint64_t next() {
    if (p >= N) {
      for (int i = 0; i < N; ++i) s[i] = s[(i + 156) % N] ^ twist(s[i], s[(i + 1) % N]);
      p = 0;
    }
    uint64_t x = s[p++];
    x ^= (x >> 29) & 0x5555555555555555ULL;
    x ^= (x << 17) & 0x71D67FFFEDA60000ULL;
    x ^= (x << 37) & 0xFFF7EEE000000000ULL;
    return x ^ (x >> 43);
  }
};
static uint64_t untemper(uint64_t y) {
  uint64_t x = y;
  x ^= x >> 43;
  x ^= (x << 37) & 0xFFF7EEE000000000ULL;
  uint64_t z = x;
  for (int i = 0; i < 5; ++i) z = x ^ ((z << 17) & 0x71D67FFFEDA60000ULL);
  x = z;
  for (int i = 0; i < 4; ++i) z = x ^ ((z >> 29) & 0x5555555555555555ULL);
  return z;
}
// a key array after which the generator's first words are the given ones (at most 156)
static std::vector<uint64_t> key_for(const std::vector<uint64_t> &w, uint64_t fill) {
  uint64_t F[312], A[312], B[312], I[312];
  Ref r;
  r.seed(fill);
  for (int i = 0; i < 312; ++i) F[i] = r.s[i];
  F[0] = 1ULL << 63;
  for (size_t i = 0; i < w.size(); ++i) F[156 + i] = untemper(w[i]) ^ Ref::twist(F[i], F[i + 1]);
  A[1] = (F[1] + 1) ^ Ref::f2(F[311]);
  A[2] = (F[2] + 2) ^ Ref::f2(A[1]);
  for (int i = 3; i < 312; ++i) A[i] = (F[i] + (uint64_t)i) ^ Ref::f2(F[i - 1]);
  r.seed(19650218ULL);
  for (int i = 0; i < 312; ++i) I[i] = r.s[i];
  std::vector<uint64_t> key(312, 0);
  B[1] = I[1] ^ Ref::f1(I[0]);
  for (int i = 2; i < 312; ++i) { B[i] = A[i]; key[i - 1] = B[i] - (uint64_t)(i - 1) - (I[i] ^ Ref::f1(B[i - 1])); }
  key[311] = A[1] - 311 - (B[1] ^ Ref::f1(B[311]));
  return key;
}
static void seed_lib(const std::vector<uint64_t> &key) {
  std::vector<uint64_t> k = key;
  init_by_array(k.data(), (int)k.size());
  if (k != key) FAIL("the array of seeds is changed");
}
static uint64_t gen_seed(Src &S) {
  switch (S.weighted({3, 3, 1, 1})) {
    case 0: return S.bits64();
    case 1: return S.draw(1000);
    case 2: return (uint64_t)(unsigned)(int)S.sint(1000);
    default: return (uint64_t)S.sint(1000000);
  }
}
static std::vector<uint64_t> gen_key(Src &S) {
  size_t n = S.coin(1, 4) ? (size_t)S.range(300, 320) : S.coin(1, 5) ? (size_t)S.range(321, 700) : (size_t)S.range(1, 12);
  std::vector<uint64_t> k;
  uint64_t z = gen_seed(S);
  for (size_t i = 0; i < n; ++i) k.push_back(n < 20 ? gen_seed(S) : (z += 0x9E3779B97F4A7C15ULL) * (z | 1));
  return k;
}
// seed library and reference alike
static void seed_both(Src &S, Ref &r) {
  if (S.weighted({2, 1})) {
    std::vector<uint64_t> k = gen_key(S);
    NOTE("seeded by an array of " << k.size() << " words starting with " << k[0]);
    label("array seed");
    seed_lib(k);
    r.seed(k);
  } else {
    uint64_t s = gen_seed(S);
    NOTE("seeded by " << s);
    label("integer seed");
    set_seed(s);
    r.seed(s);
  }
}
static double res53(uint64_t x) { return (double)(x >> 11) / 9007199254740992.0; }
static bool complex_order_known = false, complex_real_first = false;
static void expect_complex(cdouble z, uint64_t a, uint64_t b) {
  double x = res53(a), y = res53(b);
  bool rf = real(z) == x && imag(z) == y, ir = real(z) == y && imag(z) == x;
  if (!rf && !ir) FAIL("rand<cdouble>() is " << z << " and not made of the next two numbers " << x << " and " << y);
  if (rf == ir) return;
  if (complex_order_known && complex_real_first != rf) FAIL("rand<cdouble>() takes the real part now first, now second");
  complex_order_known = true;
  complex_real_first = rf;
}
// one unbounded request of kind k compared with the reference
static void request(unsigned k, Ref &r) {
  uint64_t x = r.next();
  switch (k) {
    case 0: { unsigned long g = rand<unsigned long>(); if (g != x) FAIL("rand<unsigned long>() is " << g << " instead of " << x); break; }
    case 1: { double g = rand<double>(); if (!(g == res53(x))) FAIL("rand<double>() is " << g << " instead of " << res53(x)); break; }
    case 2: { long g = rand<long>(); if (g != (long)(x >> 1)) FAIL("rand<long>() is " << g << " instead of " << (x >> 1)); break; }
    case 3: { int g = rand<int>(); if (g != (int)(x >> 1)) FAIL("rand<int>() is " << g << " instead of " << (int)(x >> 1)); break; }
    case 4: { unsigned g = rand<unsigned int>(); if (g != (unsigned)x) FAIL("rand<unsigned>() is " << g << " instead of " << (unsigned)x); break; }
    case 5: {
      float g = rand<float>();
      if (!(g >= 0 && g < 1)) FAIL("rand<float>() is " << g);
      float w = std::min((float)res53(x), std::nextafter(1.0f, 0.0f));
      if (!(g == w || (double)std::abs((double)g - res53(x)) <= 6e-8)) FAIL("rand<float>() is " << g << " instead of " << w);
      break;
    }
    case 6: { uint64_t y = r.next(); expect_complex(rand<cdouble>(), x, y); break; }
    case 7: { double g = genrand_real1(); if (!(g >= 0 && g <= 1 && std::abs(g - res53(x)) < 3e-16)) FAIL("genrand_real1() is " << g << " instead of " << res53(x)); break; }
    case 8: { double g = genrand_real2(); if (!(g == res53(x))) FAIL("genrand_real2() is " << g << " instead of " << res53(x)); break; }
    case 9: { double g = genrand_real3(); if (!(g > 0 && g < 1 && std::abs(g - res53(x)) < 5e-16)) FAIL("genrand_real3() is " << g << " for " << res53(x)); break; }
    case 10: { int64_t g = genrand_int63(); if (g != (int64_t)(x >> 1)) FAIL("genrand_int63() is " << g << " instead of " << (x >> 1)); break; }
    default: { double g = genrand_res53(); if (!(g == res53(x))) FAIL("genrand_res53() is " << g << " instead of " << res53(x)); break; }
  }
}
static const unsigned KINDS = 12;

TEST(stream, 300000, 4000000) {
  std::mt19937_64 std_ref;
  Ref r;
  int segments = (int)S.range(1, 4);
  long total = 0;
  for (int s = 0; s < segments; ++s) {
    seed_both(S, r);
    // mixed requests, then a long run of one kind across refills of the state
    for (long n = S.range(0, 12); n > 0; --n, ++total) {
      unsigned k = (unsigned)S.draw(KINDS);
      NOTE("request of kind " << k);
      request(k, r);
    }
    if (S.coin(1, 3)) {
      unsigned k = (unsigned)S.draw(KINDS);
      long n = S.range(250, 1000);
      NOTE(n << " requests of kind " << k);
      for (; n > 0; --n, ++total) request(k, r);
    }
  }
  if (total >= 5) nontrivial();
}

TEST(integer_seeds, 200000, 3000000) {     // against the standard library's generator
  uint64_t s = gen_seed(S);
  NOTE("seed " << s);
  nontrivial();
  std::mt19937_64 r(s);
  set_seed(s);
  long n = S.coin(1, 50) ? 10000 : S.range(5, 700);
  for (long i = 0; i < n; ++i) {
    uint64_t w = r(), g = rand<unsigned long>();
    if (g != w) FAIL("number " << i << " after seed " << s << " is " << g << " instead of " << w);
  }
  if (s == 5489 && n == 10000) label("conformance value");
}
TEST(conformance, 2, 12) {   // the check value of the C++ standard, and the first numbers published with the generator
  nontrivial();
  set_seed(5489);
  uint64_t x = 0;
  for (int i = 0; i < 10000; ++i) x = rand<unsigned long>();
  if (x != 9981545732273789042ULL) FAIL("the 10000th number after seed 5489 is " << x);
  seed_lib({0x12345ULL, 0x23456ULL, 0x34567ULL, 0x45678ULL});
  static const uint64_t first[] = {7266447313870364031ULL, 4946485549665804864ULL, 16945909448695747420ULL, 16394063075524226720ULL, 4873882236456199058ULL};
  for (uint64_t w : first) { uint64_t g = rand<unsigned long>(); if (g != w) FAIL("the published example is not reproduced: " << g << " instead of " << w); }
}

// ---- bounded requests -----------------------------------------------------------------
struct B { unsigned kind; uint64_t lo, hi; };   // bit patterns
static const char *bname[] = {"int(n)", "long(n)", "unsigned long(n)", "int(a,b)", "long(a,b)", "unsigned long(a,b)", "double(n)", "double(a,b)", "float(n)", "unsigned(n)"};
static uint64_t ask(const B &b) {
  double g;
  uint64_t u;
  switch (b.kind) {
    case 0: return (uint64_t)(long)rand<int>((int)b.hi);
    case 1: return (uint64_t)rand<long>((long)b.hi);
    case 2: return rand<unsigned long>((unsigned long)b.hi);
    case 3: return (uint64_t)(long)rand<int>((int)b.lo, (int)b.hi);
    case 4: return (uint64_t)rand<long>((long)b.lo, (long)b.hi);
    case 5: return rand<unsigned long>((unsigned long)b.lo, (unsigned long)b.hi);
    case 6: g = rand<double>((double)(long)b.hi); break;
    case 7: g = rand<double>((double)(long)b.lo, (double)(long)b.hi); break;
    case 8: g = (double)rand<float>((float)(long)b.hi); break;
    default: return rand<unsigned int>((unsigned int)b.hi);
  }
  memcpy(&u, &g, 8);
  return u;
}
static void in_range(const B &b, uint64_t v) {
  bool ok, sgn = b.kind == 0 || b.kind == 1 || b.kind == 3 || b.kind == 4;
  if (b.kind >= 6 && b.kind <= 8) {
    double g;
    memcpy(&g, &v, 8);
    double hi = b.kind == 8 ? (double)(float)(long)b.hi : (double)(long)b.hi, lo = b.kind == 7 ? (double)(long)b.lo : 0.0;
    ok = g >= lo && (b.kind == 6 && hi > 0 ? g < hi : g <= hi);
    if (!ok) FAIL("rand<" << bname[b.kind] << " with limits " << lo << " and " << hi << " is " << g);
    return;
  }
  uint64_t lo = b.kind >= 3 && b.kind <= 5 ? b.lo : 0;
  if (lo == b.hi) ok = v == lo;
  else if (sgn) ok = (long)v >= (long)lo && (long)v < (long)b.hi;
  else ok = v >= lo && v < b.hi;
  if (!ok) {
    if (sgn) FAIL("rand " << bname[b.kind] << " with limits " << (long)lo << " and " << (long)b.hi << " is " << (long)v);
    FAIL("rand " << bname[b.kind] << " with limits " << lo << " and " << b.hi << " is " << v);
  }
}
// a number with many magnitudes, in [0,max]
static uint64_t gen_mag(Src &S, uint64_t max) {
  switch (S.weighted({3, 2, 1, 2})) {
    case 0: return S.draw(std::min<uint64_t>(max, 40) + 1);
    case 1: { uint64_t x = S.bits64() >> S.draw(64); return x > max ? max - x % 16 % (max + 1 ? max + 1 : 16) : x; }
    case 2: { uint64_t p = 1ULL << S.draw(64); p += (uint64_t)S.sint(2); return p > max ? max : p; }
    default: return max - S.draw(std::min<uint64_t>(max, 8) + 1);
  }
}
static B gen_bound(Src &S) {
  B b;
  b.kind = (unsigned)S.draw(10);
  b.lo = 0;
  switch (b.kind) {
    case 0: b.hi = gen_mag(S, 0x7fffffffULL); break;
    case 1: case 6: case 8: b.hi = gen_mag(S, 0x7fffffffffffffffULL); break;
    case 9: b.hi = gen_mag(S, 0xffffffffULL); break;
    case 2: b.hi = gen_mag(S, ~0ULL); break;
    case 3: { long x = (long)gen_mag(S, 0x7fffffffULL), y = (long)gen_mag(S, 0x7fffffffULL); if (S.coin()) x = -x - 1; if (S.coin()) y = -y - 1; b.lo = (uint64_t)std::min(x, y); b.hi = (uint64_t)std::max(x, y); break; }
    case 4: case 7: {
      long x = (long)gen_mag(S, 0x7fffffffffffffffULL), y = (long)gen_mag(S, 0x7fffffffffffffffULL);
      if (S.coin()) x = -x - 1;
      if (S.coin()) y = -y - 1;
      b.lo = (uint64_t)std::min(x, y); b.hi = (uint64_t)std::max(x, y);
      break;
    }
    default: { uint64_t x = gen_mag(S, ~0ULL), y = gen_mag(S, ~0ULL); b.lo = std::min(x, y); b.hi = std::max(x, y); }
  }
  if (b.kind == 9 && b.hi == 0) b.hi = 1;
  return b;
}
TEST(bounded, 600000, 8000000) {
  // words that sit at the ends of the reductions, forced by a computed array of seeds
  bool chosen = S.coin();
  std::vector<B> bs;
  std::vector<uint64_t> words;
  for (long n = S.range(1, 8); n > 0; --n) {
    B b = gen_bound(S);
    bs.push_back(b);
    uint64_t range = b.hi - b.lo, w;
    switch (S.draw(5)) {
      case 0: w = ~0ULL - S.draw(3); break;
      case 1: w = S.draw(3); break;
      case 2: w = range ? (~0ULL / range) * range + (uint64_t)S.sint(1) : S.bits64(); break;
      case 3: w = range * (S.bits64() >> 32) + (uint64_t)S.sint(1); break;
      default: w = (1ULL << S.draw(64)) + (uint64_t)S.sint(1);
    }
    words.push_back(w);
  }
  std::vector<uint64_t> key;
  uint64_t s = gen_seed(S);
  if (chosen) key = key_for(words, s);
  auto reset = [&] { if (chosen) seed_lib(key); else set_seed(s); };
  label(chosen ? "words chosen" : "words from a seed");
  if (bs.size() >= 2) nontrivial();
  if (chosen) {
    Ref r;
    r.seed(key);
    reset();
    for (uint64_t w : words) {
      if (r.next() != w) throw std::logic_error("key computation");
      uint64_t g = rand<unsigned long>();
      if (g != w) FAIL("a word of the stream is " << g << " instead of " << w);
    }
  }
  for (int how = 0; how < 2; ++how) {     // all in a row, then each as the first request
    std::vector<uint64_t> got;
    if (how == 0) reset();
    for (auto &b : bs) {
      if (how && chosen) seed_lib(key_for({words[&b - &bs[0]]}, s));
      NOTE(bname[b.kind] << " with limits " << (long)b.lo << " and " << (long)b.hi << (chosen ? " word " + std::to_string(words[&b - &bs[0]]) : ""));
      uint64_t v = ask(b);
      in_range(b, v);
      got.push_back(v);
    }
    if (how) break;
    reset();
    for (size_t i = 0; i < bs.size(); ++i) { uint64_t v = ask(bs[i]); if (v != got[i]) FAIL("request " << i << " (" << bname[bs[i].kind] << ") is " << (long)v << " the second time and " << (long)got[i] << " the first, from the same seed"); }
    if (!chosen) break;
  }
}
TEST(unbounded_extremes, 300000, 3000000) {
  std::vector<uint64_t> words;
  for (long n = S.range(1, 10); n > 0; --n) {
    uint64_t top = S.draw(65);
    uint64_t w = S.coin() ? (top == 64 ? ~0ULL : ~(~0ULL >> top)) : (top == 64 ? 0 : ~0ULL >> top);   // leading ones or zeros
    if (S.coin(1, 3)) w ^= S.bits64() >> S.range(std::min<long>((long)top + 1, 63), 63);
    words.push_back(w);
  }
  std::vector<uint64_t> key = key_for(words, gen_seed(S));
  NOTE("words " << show(words));
  nontrivial();
  Ref r;
  seed_lib(key);
  r.seed(key);
  for (size_t i = 0; i < words.size(); ++i) { unsigned k = (unsigned)S.draw(KINDS); NOTE("request of kind " << k); request(k, r); }
}

// every value of a small range occurs, evenly; values below large bounds use the whole range
TEST(coverage, 40000, 600000) {
  B b;
  b.kind = (unsigned)S.draw(6);
  uint64_t n = S.coin(1, 3) ? (uint64_t)S.range(2, 5) : (uint64_t)S.range(2, 200);
  long base = b.kind >= 3 ? S.sint(1000) : 0;
  if (b.kind == 5) base = std::abs(base);
  if (b.kind >= 3 && S.coin(1, 4)) base = b.kind == 3 ? -2147483648L : b.kind == 4 ? std::numeric_limits<long>::min() : 0;
  bool wide = S.coin(1, 3);
  if (wide) {   // split into n equal cells
    uint64_t full = b.kind == 0 ? 0x7fffffffULL : b.kind == 3 ? 0xffffffffULL : b.kind == 1 ? 0x7fffffffffffffffULL : ~0ULL;
    uint64_t width = full >> S.draw(b.kind == 0 || b.kind == 3 ? 12 : 40);
    base = b.kind == 3 ? -2147483648L : b.kind == 4 ? std::numeric_limits<long>::min() : 0;
    b.lo = (uint64_t)base;
    b.hi = (uint64_t)base + width;
  } else {
    b.lo = (uint64_t)base;
    b.hi = b.lo + n;
  }
  uint64_t s = gen_seed(S);
  set_seed(s);
  uint64_t width = b.hi - b.lo;
  NOTE(bname[b.kind] << " limits " << (long)b.lo << " and " << (long)b.hi << " seed " << s << " in " << n << " cells");
  nontrivial();
  label(wide ? "large ranges" : "small ranges");
  long draws = 60 * (long)n;
  std::vector<long> count(n, 0);
  std::vector<long> low(2, 0);
  for (long i = 0; i < draws; ++i) {
    uint64_t v = ask(b);
    in_range(b, v);
    uint64_t off = v - b.lo;
    count[(size_t)((unsigned __int128)off * n / width)]++;
    low[off & 1]++;
  }
  // expected 60 each: 12 standard deviations leave no room for chance
  for (uint64_t i = 0; i < n; ++i) {
    if (!wide && count[i] == 0) FAIL("value " << (long)(b.lo + i) << " never occurs in " << draws << " requests");
    if (std::abs((double)count[i] - 60) > 12 * std::sqrt(60.0)) FAIL("cell " << i << " of " << n << " is hit " << count[i] << " times instead of about 60");
  }
  if (width > 64 && wide && std::abs((double)low[0] - (double)low[1]) > 12 * std::sqrt((double)draws)) FAIL("even and odd values are not balanced: " << low[0] << " and " << low[1]);
}

// ---- seeding from the environment, and from the system -------------------------------
TEST(environment_seed, 60000, 400000) {
  long seed = S.coin() ? S.sint(1000000) : (long)(int)S.bits64();
  NOTE("RANDSEED=" << seed);
  nontrivial();
  setenv("RANDSEED", std::to_string(seed).c_str(), 1);
  std::ostringstream sink;
  std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
  rand<int>();
  rand_reseed();
  std::cout.rdbuf(old);
  unsetenv("RANDSEED");
  Ref r;
  r.seed((uint64_t)seed);
  for (long n = S.range(1, 20); n > 0; --n) request((unsigned)S.draw(KINDS), r);
  if (S.coin(1, 5)) {
    label("system seed");
    rand_reseed();
    std::vector<uint64_t> a, b;
    for (int i = 0; i < 20; ++i) a.push_back(rand<unsigned long>());
    rand_reseed();
    for (int i = 0; i < 20; ++i) b.push_back(rand<unsigned long>());
    if (a == b) FAIL("two seedings from the system give the same stream");
    if (std::set<uint64_t>(a.begin(), a.end()).size() < 20) FAIL("a stream seeded from the system repeats itself");
    Ref z;
    z.seed(0);
    for (int i = 0; i < 20; ++i) if (a[i] != z.next()) break; else if (i == 19) FAIL("seeding from the system is seeding with 0");
  }
}

// ---- tensors -----------------------------------------------------------------------------
template <class T> void expect_from(const Tensor<T> &t, Ref &r);
template <> void expect_from<double>(const RTensor &t, Ref &r) {
  for (long i = 0; i < t.size(); ++i) { double w = res53(r.next()); if (!(t[i] == w)) FAIL("element " << i << " is " << t[i] << " instead of the next number " << w); }
}
template <> void expect_from<cdouble>(const CTensor &t, Ref &r) {
  for (long i = 0; i < t.size(); ++i) { uint64_t x = r.next(), y = r.next(); expect_complex(t[i], x, y); }
}
template <class T> Tensor<T> random_of(const Dims &d, bool indices) {
  if (!indices) switch (d.size()) {
    case 1: return Tensor<T>::random(d[0]);
    case 2: return Tensor<T>::random(d[0], d[1]);
    case 3: return Tensor<T>::random(d[0], d[1], d[2]);
    case 4: return Tensor<T>::random(d[0], d[1], d[2], d[3]);
    case 5: return Tensor<T>::random(d[0], d[1], d[2], d[3], d[4]);
    case 6: return Tensor<T>::random(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
  return Tensor<T>::random(ix(d));
}
template <class T> void tensors(Src &S) {
  Ref r;
  seed_both(S, r);
  long total = 0;
  for (long n = S.range(1, 4); n > 0; --n) {
    Dims d = gen_shape(S);
    if (S.coin(1, 10)) d.push_back(1);
    bool ind = S.coin(1, 3);
    NOTE(tname<T>() << " random tensor of dimensions " << show(d) << (ind ? " given as a list" : ""));
    if (S.coin()) {
      Tensor<T> t = random_of<T>(d, ind);
      if (dims_of(t.dimensions()) != d) FAIL("the dimensions are " << show(t.dimensions()) << " instead of " << show(d));
      if (t.size() != prod(d)) FAIL("there are " << t.size() << " elements instead of " << prod(d));
      expect_from(t, r);
      total += t.size();
    } else {   // an existing tensor, of which there are copies
      Arr<T> a = tag_arr<T>(d);
      Tensor<T> t = mk(a), copy = t;
      t.randomize();
      if (dims_of(t.dimensions()) != d) FAIL("the dimensions become " << show(t.dimensions()) << " instead of " << show(d));
      expect_from(t, r);
      expect_eq("the copy of a randomized tensor", copy, a);
      total += t.size();
    }
    if (S.coin(1, 4)) request((unsigned)S.draw(KINDS), r);
  }
  if (total >= 5) nontrivial();
  request(0, r);
}
TEST(tensors_R, 200000, 2500000) { tensors<double>(S); }
TEST(tensors_C, 200000, 2500000) { tensors<cdouble>(S); }

template <class T> void sparse(Src &S) {
  long m = S.range(0, 30), n = S.range(0, 30);
  double density = S.coin(1, 8) ? 1.0 : 0.05 + 0.9 * S.unit();
  uint64_t s = gen_seed(S);
  NOTE(tname<T>() << " random sparse matrix " << m << "x" << n << " density " << density << " seed " << s);
  set_seed(s);
  Sparse<T> a = Sparse<T>::random(m, n, density);
  well_formed("a random sparse matrix", a);
  if (a.rows() != m || a.columns() != n) FAIL("the random sparse matrix has dimensions " << a.rows() << "x" << a.columns() << " instead of " << m << "x" << n);
  set_seed(s);
  Sparse<T> b = Sparse<T>::random(m, n, density);
  expect_eq("the second random sparse matrix from the same seed", ld(b), ld(a));
  long cells = m * n;
  if (cells > 5) nontrivial();
  for (long i = 0; i < a.length(); ++i) { double x = std::abs(a.priv_data()[i]); if (!(x > 0 && x <= 1 + 1e-15)) FAIL("a random element is " << a.priv_data()[i]); }
  if (tname<T>()[0] == 'R') {   // each element is present with probability density
    double sd = std::sqrt((double)cells * density * (1 - density)) + 1;
    if (std::abs((double)a.length() - density * (double)cells) > 10 * sd) FAIL(a.length() << " of " << cells << " elements are present for a density of " << density);
  }
}
TEST(sparse_R, 80000, 800000) { sparse<double>(S); }
TEST(sparse_C, 80000, 800000) { sparse<cdouble>(S); }
