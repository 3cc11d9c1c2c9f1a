#include "sdfx.h"
#include <sys/mman.h>
using namespace sx;
const char *pbt::PROPERTY = "C27";
const char *pbt::RULE =
    "Files of 1-6 random records (all types) made by an independent encoder are damaged: truncated at any byte, bytes changed, a header, name, tag, rank, dimension, length or count field replaced by an "
    "interesting value, spans removed, duplicated or inserted, whole files of structured garbage; or they are intact and read under another name or as another type. A reader process loads the records in turn "
    "and what it gets is compared with an independent strict parser of the very bytes: records before the damage must be read, ill-formed ones refused, and nothing else may come out. Non-trivial: the bytes or "
    "the requests differ from what was written.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the reader gives up (reports and ends) at the first record it refuses", "names are significant up to 63 characters; what follows the NUL of a name has no meaning",
    "nested records of vectors of tensors may have any name"};

struct Step { Kind k; std::string name; };
struct Out { long done; char buf[1 << 20]; size_t len; bool full; };
static Out *out;
// what was loaded, as text (exact)
static std::string text(const Rec &x) {
  Enc e;
  std::string s = std::string(KNAME[x.k]) + "|";
  if (x.k <= SIZE) return s + std::to_string(x.n);
  for (auto &a : x.r) e.tensor("", a);
  for (auto &a : x.c) e.tensor("", a);
  return s + e.out;
}
static Rec gen_small(Src &S) { return gen_rec(S, 40); }
static std::vector<Step> plan(Src &S, const std::vector<Rec> &recs) {
  std::vector<Step> st;
  for (auto &x : recs) {
    Step s;
    s.k = x.k;
    s.name = S.coin() ? x.name : S.coin() ? "" : x.name.substr(0, 63);
    if (S.coin(1, 6)) { Rec ex; Kind alt = (Kind)S.draw(8); if (expect_load(stored(x), alt, ex)) s.k = alt; }
    st.push_back(s);
  }
  return st;
}
static bool name_ok(const std::string &asked, const std::string &there) { return asked.empty() || asked.substr(0, 63) == there; }

// runs the reader over the bytes and compares with the strict parser;
// intact = number of bytes from the start known to be as written
static void run(const std::string &bytes, bool exists_, const std::vector<Step> &steps, size_t intact) {
  if (!out) { out = (Out *)mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  std::string f = fresh_file();
  if (exists_) spit(f, bytes);
  out->done = -1; out->len = 0; out->full = false;
  std::string tail;
  Outcome o = probe([&] {
    sdf::InDataFile in(f);
    out->done = 0;
    for (auto &s : steps) {
      std::string t = text(load(in, s.k, s.name));
      unsigned n = (unsigned)t.size();
      if (out->len + 4 + n <= sizeof out->buf) { memcpy(out->buf + out->len, &n, 4); memcpy(out->buf + out->len + 4, t.data(), n); out->len += 4 + n; }
      else out->full = true;
      ++out->done;
    }
  }, &tail);
  if (o == CRASHED || o == HUNG) FAIL("reading " << outcome_name(o) << " after " << out->done << " records: " << tail.substr(0, 600));
  // the parser's verdict
  Par p(bytes);
  if (!exists_ || !p.header()) {
    if (out->done >= 0) FAIL((exists_ ? "a file with a wrong header" : "a missing file") << " is opened");
    return;
  }
  if (out->done < 0) {
    if (intact >= 64) FAIL("an intact header is refused: " << tail.substr(0, 300));
    return;   // refusing more than the parser is allowed beyond the damage
  }
  size_t at = 0;
  long i = 0;
  for (; i < (long)steps.size(); ++i) {
    Rec st, ex;
    bool ok = p.rec(st) && name_ok(steps[i].name, st.name) && expect_load(st, steps[i].k, ex);
    if (i >= out->done) {
      if (ok && p.p <= intact) FAIL("record " << i << ", intact, is refused: " << tail.substr(0, 300));
      break;
    }
    if (!ok) FAIL("record " << i << " is not well formed or not what was asked for, but is read as " << quote(std::string(out->buf + at + 4, *(unsigned *)(out->buf + at)).substr(0, 300)));
    if (out->full && at + 4 > out->len) break;
    unsigned n;
    memcpy(&n, out->buf + at, 4);
    std::string got(out->buf + at + 4, n), want = text(ex);
    if (got != want) FAIL("record " << i << " is read as " << quote(got.substr(0, 300)) << " instead of " << quote(want.substr(0, 300)));
    at += 4 + n;
  }
  if (i == (long)steps.size() && o != RETURNED) FAIL("all records are read but the process ends with " << outcome_name(o) << ": " << tail.substr(0, 300));
  label(out->done == (long)steps.size() ? "all read" : out->done > 0 ? "some read" : "none read");
}
static std::string encode(const std::vector<Rec> &recs) { Enc e; e.header(); for (auto &x : recs) e.rec(x); return e.out; }
static std::vector<Rec> gen_file(Src &S) {
  std::vector<Rec> recs;
  for (long n = S.range(1, 6); n > 0; --n) recs.push_back(gen_small(S));
  return recs;
}
// where the integer fields (tags, ranks, dimensions, lengths, counts) of the file are
static void fields_of(const std::vector<Rec> &recs, std::vector<size_t> &ints, std::vector<size_t> &names) {
  size_t p = 64;
  names.push_back(0);
  for (auto &x0 : recs) {
    Rec x = stored(x0);
    names.push_back(p); p += 64; ints.push_back(p); p += 8;
    auto tensor = [&](long rank, size_t body) { ints.push_back(p); p += 8; for (long i = 0; i < rank; ++i) { ints.push_back(p); p += 8; } ints.push_back(p); p += 8 + body; };
    if (x.k == RT) tensor(x.r[0].rank(), x.r[0].v.size() * 8);
    else if (x.k == CT) tensor(x.c[0].rank(), x.c[0].v.size() * 16);
    else {
      ints.push_back(p); p += 8;
      for (auto &a : x.r) { names.push_back(p); p += 64; ints.push_back(p); p += 8; tensor(a.rank(), a.v.size() * 8); }
      for (auto &a : x.c) { names.push_back(p); p += 64; ints.push_back(p); p += 8; tensor(a.rank(), a.v.size() * 16); }
    }
  }
}
static long odd_long(Src &S, long old) {
  static const long E[] = {0, 1, -1, 2, 3, 4, 5, 8, 16, 255, 256, 1L << 31, 1L << 32, (1L << 32) + 1, 1L << 40, 1L << 59, 1L << 60, 1L << 61, (1L << 61) + 1, 1L << 62, 0x7fffffffffffffffL, (long)(1UL << 63), -2, -8, 0x0101010101010101L};
  switch (S.draw(5)) {
    case 0: return old + S.sint(3);
    case 1: return old ^ (1L << S.draw(64));
    case 2: return old * 2;
    default: return S.elem(E);
  }
}

TEST(truncated, 12000, 300000) {
  std::vector<Rec> recs = gen_file(S);
  std::string b = encode(recs);
  std::vector<Step> st = plan(S, recs);
  size_t cut;
  std::vector<size_t> ints, names;
  fields_of(recs, ints, names);
  switch (S.draw(3)) {
    case 0: cut = S.draw(b.size()); break;
    case 1: cut = S.elem(ints) + S.draw(9); break;
    default: cut = S.elem(names) + S.draw(65);
  }
  if (cut > b.size()) cut = b.size();
  for (auto &x : recs) NOTE(show(x));
  NOTE("truncated to " << cut << " of " << b.size() << " bytes");
  if (cut < b.size()) nontrivial();
  b.resize(cut);
  run(b, true, st, cut);
}
TEST(fields, 25000, 800000) {
  std::vector<Rec> recs = gen_file(S);
  std::string b = encode(recs), b0 = b;
  std::vector<Step> st = plan(S, recs);
  std::vector<size_t> ints, names;
  fields_of(recs, ints, names);
  for (auto &x : recs) NOTE(show(x));
  for (long n = S.coin(1, 4) ? S.range(2, 3) : 1; n > 0; --n) {
    size_t at = S.elem(ints);
    long old; memcpy(&old, &b[at], 8);
    long v = odd_long(S, old);
    NOTE("field at byte " << at << " changed from " << old << " to " << v);
    memcpy(&b[at], &v, 8);
  }
  size_t d = 0;
  while (d < b.size() && b[d] == b0[d]) ++d;
  if (d < b.size()) nontrivial();
  run(b, true, st, d);
}
// rank, dimensions and length changed together so that products wrap around
TEST(wrapping_dimensions, 6000, 200000) {
  Rec x;
  x.k = S.coin() ? RT : CT;
  x.name = "w";
  std::vector<long> dims;
  long n = S.range(2, 5);
  for (long i = 0; i < n; ++i) dims.push_back(S.coin() ? (1L << S.draw(63)) : S.coin() ? S.sint(4) : (long)S.bits64());
  unsigned long total = 1;
  for (long d : dims) total *= (unsigned long)d;
  long len = (total <= 64) ? (long)total : S.range(0, 8);
  Enc e;
  e.header();
  e.name(x.name); e.lng(tag_of(x.k)); e.lng(n);
  for (long d : dims) e.lng(d);
  e.lng(len);
  for (long i = 0; i < len * (x.k == CT ? 2 : 1); ++i) e.dbl((double)i);
  NOTE("dims " << pbt::show(dims) << " length " << len);
  nontrivial();
  label(total == (unsigned long)len ? "wraps to the length" : "other");
  run(e.out, true, {Step{x.k, "w"}}, 64);
}
TEST(bytes, 15000, 500000) {
  std::vector<Rec> recs = gen_file(S);
  std::string b = encode(recs), b0 = b;
  std::vector<Step> st = plan(S, recs);
  std::vector<size_t> ints, names;
  fields_of(recs, ints, names);
  for (auto &x : recs) NOTE(show(x));
  for (long n = S.range(1, 4); n > 0; --n) {
    if (b.empty()) break;
    size_t at = S.coin() ? S.draw(b.size()) : std::min(b.size() - 1, (size_t)(S.coin() ? S.elem(names) + S.draw(64) : S.elem(ints) + S.draw(8)));
    switch (S.draw(5)) {
      case 0: b[at] = (char)(b[at] ^ (1 << S.draw(8))); NOTE("bit flipped in byte " << at); break;
      case 1: b[at] = (char)S.draw(256); NOTE("byte " << at << " changed to " << (int)(unsigned char)b[at]); break;
      case 2: { size_t l = 1 + S.draw(100); b.erase(at, l); NOTE(l << " bytes removed at " << at); break; }
      case 3: { size_t l = 1 + S.draw(100); b.insert(at, std::string(l, (char)S.draw(256))); NOTE(l << " bytes inserted at " << at); break; }
      default: { size_t l = 1 + S.draw(200); b.insert(at, b.substr(S.draw(b.size()), l)); NOTE("a copy of some bytes inserted at " << at); }
    }
  }
  size_t d = 0;
  while (d < b.size() && d < b0.size() && b[d] == b0[d]) ++d;
  if (b != b0) nontrivial();
  run(b, true, st, d);
}
TEST(headers, 4000, 100000) {
  std::vector<Rec> recs = {gen_small(S)};
  std::string b = encode(recs);
  std::vector<Step> st = plan(S, recs);
  std::string h = b.substr(0, 64);
  switch (S.draw(5)) {
    case 0: h[S.draw(6)] = (char)S.draw(256); break;
    case 1: h = std::string(64, (char)S.draw(256)); break;
    case 2: h = std::string("sdf") + (char)('0' + S.draw(10)) + (char)('0' + S.draw(10)) + (char)('0' + S.draw(3)) + std::string(58, 0); break;
    case 3: { size_t n = S.draw(7); for (size_t i = n; i < 64; ++i) h[i] = 0; break; }
    default: for (auto &c : h) c = (char)S.range(1, 255); if (S.coin()) memcpy(&h[0], "sdf481", 6);
  }
  b.replace(0, 64, h);
  NOTE("header " << quote(h));
  bool same6 = h.compare(0, 6, "sdf481") == 0;
  if (!same6) nontrivial();
  run(b, true, st, same6 && h[6] == 0 ? b.size() : 0);
}
TEST(garbage, 4000, 150000) {
  std::string b;
  if (S.coin()) b = header_bytes();
  std::vector<Step> st;
  for (long n = S.range(0, 30); n > 0; --n) switch (S.draw(4)) {
    case 0: { std::string nm = gen_name(S); Enc e; e.name(nm); b += e.out; st.push_back({(Kind)S.draw(8), S.coin() ? nm : ""}); break; }
    case 1: { long v = odd_long(S, 1); b.append((char *)&v, 8); break; }
    case 2: { long v = S.range(0, 3); b.append((char *)&v, 8); break; }
    default: for (long k = S.range(1, 20); k > 0; --k) b += (char)S.draw(256);
  }
  if (st.empty()) st.push_back({(Kind)S.draw(8), ""});
  NOTE(b.size() << " bytes: " << quote(b.substr(0, 400)));
  nontrivial();
  run(b, true, st, b.compare(0, 64, header_bytes()) == 0 && b.size() >= 64 ? 64 : 0);
}
TEST(mismatches, 10000, 250000) {
  std::vector<Rec> recs = gen_file(S);
  std::string b = encode(recs);
  std::vector<Step> st = plan(S, recs);
  for (auto &x : recs) NOTE(show(x));
  size_t i = S.draw(st.size());
  switch (S.draw(5)) {
    case 0: st[i].k = (Kind)S.draw(8); break;
    case 1: st[i].name = gen_name(S); break;
    case 2: { std::string n = recs[i].name; if (n.empty()) n = "x"; else if (S.coin()) n.resize(n.size() - 1); else if (S.coin()) n += 'z'; else n[S.draw(n.size())] ^= 1; if (n.find('\0') != std::string::npos) n = "q"; st[i].name = n; break; }
    case 3: st.push_back(st[i]); break;             // one more record than there are
    default: std::swap(st[i], st[S.draw(st.size())]);
  }
  NOTE("record " << i << " asked as " << KNAME[st[i].k] << " " << quote(st[i].name) << ", " << st.size() << " requests");
  nontrivial();
  run(b, true, st, b.size());
}
TEST(no_file, 400, 5000) {
  std::vector<Step> st = {{(Kind)S.draw(8), ""}};
  std::string f = fresh_file();
  nontrivial();
  if (S.coin()) { NOTE("missing"); run("", false, st, 0); }
  else {
    NOTE("a directory");
    std::string d = scratch_dir() + "/dir";
    mkdir(d.c_str(), 0777);
    must_refuse("reading a directory", [&] { sdf::InDataFile in(d); });
    unlink((d + ".lck").c_str());
    rmdir(d.c_str());
  }
}
// plain numbers out of the range of the type asked for
TEST(numbers, 6000, 150000) {
  Rec x;
  x.k = REAL; x.name = "n";
  Arr<double> a(Dims{1});
  static const double E[] = {2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, -2147483648.5, 2147483647.5, -1, -0.5, -0.0, 0.5, 18446744073709551616.0, 18446744073709549568.0, 9223372036854775808.0, 1e300, -1e300, 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0};
  a.v[0] = S.coin() ? S.elem(E) : S.coin() ? any_double(S) : (double)S.sint(1000) * std::pow(2.0, (double)S.range(0, 60));
  // -2147483648.5 truncates into range but lies outside: either answer is fine, leave it out
  if (a.v[0] > -2147483649.0 && a.v[0] < -2147483648.0) a.v[0] = -2147483649.0;
  if (a.v[0] > -1.0 && a.v[0] < 0.0) a.v[0] = -1.0;
  x.r = {a};
  Kind k = S.coin() ? INT : SIZE;
  NOTE(a.v[0] << " read as " << KNAME[k]);
  nontrivial();
  Rec ex;
  label(std::string(KNAME[k]) + (expect_load(stored(x), k, ex) ? " fits" : " does not fit"));
  std::string b = encode({x});
  run(b, true, {{k, "n"}}, b.size());
}
