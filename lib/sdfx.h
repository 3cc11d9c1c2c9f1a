// Reference model of data files: records, an independent encoder, an
// independent strict parser, and adaptors to the library's writer and reader.
#ifndef PBT_SDFX_H
#define PBT_SDFX_H
#include "gen.h"
#include <tensor/sdf.h>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>

namespace sx {
enum Kind { INT, SIZE, REAL, CPLX, RT, CT, VR, VC };
static const char *KNAME[] = {"int", "size_t", "double", "cdouble", "RTensor", "CTensor", "vector<RTensor>", "vector<CTensor>"};
struct Rec {
  Kind k = INT;
  std::string name;
  long n = 0;               // INT, SIZE
  std::vector<Arr<double>> r;   // REAL (1 element), RT, VR
  std::vector<Arr<cd>> c;
};
inline std::string quote(const std::string &s) {
  std::ostringstream o;
  o << '"';
  for (unsigned char ch : s) { if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') o << ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o << b; } }
  o << '"';
  return o.str();
}
inline std::string show(const Rec &x) {
  std::ostringstream o;
  o << KNAME[x.k] << " " << quote(x.name) << " ";
  if (x.k <= SIZE) o << x.n;
  for (auto &a : x.r) o << "{" << pbt::show(a) << "}";
  for (auto &a : x.c) o << "{" << pbt::show(a) << "}";
  return o.str();
}
inline bool is_cplx(Kind k) { return k == CPLX || k == CT || k == VC; }
// what is stored: plain numbers are one-element tensors
inline Rec stored(const Rec &x) {
  Rec y = x;
  y.name = x.name.substr(0, 63);
  if (x.k == INT || x.k == SIZE) { Arr<double> a(Dims{1}); a.v[0] = (double)x.n; y.r = {a}; y.k = RT; y.n = 0; }
  else if (x.k == REAL) y.k = RT;
  else if (x.k == CPLX) y.k = CT;
  return y;
}
inline int tag_of(Kind k) { return k == RT ? 0 : k == CT ? 1 : k == VR ? 2 : 3; }

// ---- independent encoder -------------------------------------------------------
struct Enc {
  int lsize = 8;
  bool big = false;
  std::string out;
  void raw(const void *p, size_t n) {
    const char *c = (const char *)p;
    if (big) for (size_t i = n; i-- > 0;) out += c[i];
    else out.append(c, n);
  }
  void lng(long v) { if (lsize == 8) raw(&v, 8); else { int w = (int)v; raw(&w, 4); } }
  void dbl(double v) { raw(&v, 8); }
  void name(const std::string &s) { std::string b = s.substr(0, 63); b.resize(64, '\0'); out += b; }
  void header() { name(std::string("sdf4") + (char)('0' + lsize) + (big ? '0' : '1')); }
  void tensor(const std::string &nm, const Arr<double> &a) {
    name(nm); lng(0); lng(a.rank()); for (long d : a.d) lng(d); lng(a.size()); for (double x : a.v) dbl(x);
  }
  void tensor(const std::string &nm, const Arr<cd> &a) {
    name(nm); lng(1); lng(a.rank()); for (long d : a.d) lng(d); lng(a.size()); for (cd x : a.v) { dbl(x.real()); dbl(x.imag()); }
  }
  void rec(const Rec &x0) {
    Rec x = stored(x0);
    if (x.k == RT) tensor(x.name, x.r[0]);
    else if (x.k == CT) tensor(x.name, x.c[0]);
    else {
      name(x.name); lng(tag_of(x.k));
      lng(x.k == VR ? (long)x.r.size() : (long)x.c.size());
      for (auto &a : x.r) tensor("", a);
      for (auto &a : x.c) tensor("", a);
    }
  }
};
inline std::string header_bytes() { Enc e; e.header(); return e.out; }
inline std::string rec_bytes(const Rec &x) { Enc e; e.rec(x); return e.out; }

// ---- independent strict parser ------------------------------------------------------
struct Par {
  const std::string &b;
  size_t p;
  Par(const std::string &bytes, size_t pos = 0) : b(bytes), p(pos) {}
  bool lng(long &v) { if (b.size() - p < 8) return false; memcpy(&v, &b[p], 8); p += 8; return true; }
  bool name(std::string &s) {
    if (b.size() - p < 64) return false;
    s = b.substr(p, 64); p += 64;
    size_t z = s.find('\0');
    if (z != std::string::npos) s.resize(z);
    return true;
  }
  bool header() {
    std::string s;
    return name(s) && s.size() >= 6 && s.compare(0, 6, "sdf481") == 0;
  }
  template <class T> bool tensor(Arr<T> &a) {
    long rank, len;
    if (!lng(rank) || rank < 0 || (unsigned long)rank > (b.size() - p) / 8) return false;
    a.d.resize(rank);
    for (auto &d : a.d) if (!lng(d)) return false;
    if (!lng(len) || len < 0 || (unsigned long)len > (b.size() - p) / sizeof(T)) return false;
    long total = rank ? 1 : 0;
    for (long d : a.d) if (d < 0) return false;
    for (long d : a.d) if (d == 0) total = 0;
    if (total) for (long d : a.d) { if (d > len / total) return false; total *= d; }
    if (total != len) return false;
    a.v.resize(len);
    if (len) memcpy((void *)&a.v[0], &b[p], len * sizeof(T));
    p += len * sizeof(T);
    return true;
  }
  // next record; false when what follows is not a well-formed record
  bool rec(Rec &x) {
    long tag;
    x = Rec();
    if (!name(x.name) || !lng(tag)) return false;
    if (tag == 0) { x.k = RT; x.r.resize(1); return tensor(x.r[0]); }
    if (tag == 1) { x.k = CT; x.c.resize(1); return tensor(x.c[0]); }
    if (tag != 2 && tag != 3) return false;
    long n;
    if (!lng(n) || n < 0 || (unsigned long)n > (b.size() - p) / 80) return false;
    x.k = tag == 2 ? VR : VC;
    for (long i = 0; i < n; ++i) {
      std::string s; long t;
      if (!name(s) || !lng(t) || t != tag - 2) return false;
      if (tag == 2) { Arr<double> a; if (!tensor(a)) return false; x.r.push_back(a); }
      else { Arr<cd> a; if (!tensor(a)) return false; x.c.push_back(a); }
    }
    return true;
  }
};
template <class T> bool same(const std::vector<Arr<T>> &a, const std::vector<Arr<T>> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].d != b[i].d || a[i].v.size() != b[i].v.size()) return false;
    for (size_t j = 0; j < a[i].v.size(); ++j) if (!same_bits(a[i].v[j], b[i].v[j])) return false;
  }
  return true;
}
// same stored contents (x, y both in stored form)
inline bool same_rec(const Rec &x, const Rec &y) { return x.k == y.k && x.name == y.name && same(x.r, y.r) && same(x.c, y.c); }
// parse a complete file; empty string when it is well formed and holds exactly these records
inline std::string compare_file(const std::string &bytes, const std::vector<Rec> &want) {
  std::ostringstream o;
  Par p(bytes);
  if (!p.header()) { o << "no valid header in " << bytes.size() << " bytes"; return o.str(); }
  for (size_t i = 0; i < want.size(); ++i) {
    Rec x;
    size_t at = p.p;
    if (!p.rec(x)) { o << "no well-formed record " << i << " at byte " << at << " of " << bytes.size(); return o.str(); }
    Rec y = stored(want[i]);
    if (!same_rec(x, y)) { o << "record " << i << " is " << show(x) << " instead of " << show(y); return o.str(); }
  }
  if (p.p != bytes.size()) { o << (bytes.size() - p.p) << " unexpected bytes after the last record"; return o.str(); }
  return "";
}

// ---- files ----------------------------------------------------------------------------
inline bool slurp(const std::string &f, std::string &out) {
  std::ifstream s(f.c_str(), std::ios::binary);
  if (!s) return false;
  std::ostringstream o;
  o << s.rdbuf();
  out = o.str();
  return true;
}
inline void spit(const std::string &f, const std::string &b) {
  std::ofstream s(f.c_str(), std::ios::binary | std::ios::trunc);
  s.write(b.data(), (long)b.size());
}
inline bool exists(const std::string &f) { struct stat s; return lstat(f.c_str(), &s) == 0; }
// empties what earlier cases of this worker left
inline std::string fresh_file(const char *base = "data") {
  std::string f = pbt::scratch_dir() + "/" + base;
  unlink(f.c_str()); unlink((f + ".lck").c_str()); unlink((f + ".tmp").c_str());
  return f;
}

// ---- the library's writer and reader ---------------------------------------------------
template <class T> std::vector<tensor::Tensor<T>> mkv(const std::vector<Arr<T>> &v) {
  std::vector<tensor::Tensor<T>> r;
  for (auto &a : v) r.push_back(mk(a));
  return r;
}
inline void dump(sdf::OutDataFile &f, const Rec &x) {
  switch (x.k) {
    case INT: f.dump((int)x.n, x.name); break;
    case SIZE: f.dump((size_t)x.n, x.name); break;
    case REAL: f.dump(x.r[0].v[0], x.name); break;
    case CPLX: f.dump(tensor::cdouble(x.c[0].v[0]), x.name); break;
    case RT: f.dump(mk(x.r[0]), x.name); break;
    case CT: f.dump(mk(x.c[0]), x.name); break;
    case VR: f.dump(mkv(x.r), x.name); break;
    case VC: f.dump(mkv(x.c), x.name); break;
  }
}
// destinations with contents of their own, which a load replaces
template <class T> tensor::Tensor<T> used(size_t n) {
  if (n % 2 == 0) return tensor::Tensor<T>();
  tensor::Tensor<T> t(tensor::igen << (tensor::index)(n % 5) << 3);
  for (tensor::index i = 0; i < t.size(); ++i) t.at(i) = T(-55.0);
  return t;
}
template <class T> std::vector<tensor::Tensor<T>> used_v(size_t n) {
  std::vector<tensor::Tensor<T>> v;
  for (size_t i = 0; i < n * 5 % 7; ++i) v.push_back(used<T>(n + i));
  return v;
}
// load as the given kind; the result is in that kind's form
inline Rec load(sdf::InDataFile &f, Kind k, const std::string &name) {
  Rec x;
  x.k = k;
  x.name = name;
  switch (k) {
    case INT: { int v = -77; f.load(&v, name); x.n = v; break; }
    case SIZE: { size_t v = 77; f.load(&v, name); x.n = (long)v; break; }
    case REAL: { double v = -77; f.load(&v, name); Arr<double> a(Dims{1}); a.v[0] = v; x.r = {a}; break; }
    case CPLX: { tensor::cdouble v = -77; f.load(&v, name); Arr<cd> a(Dims{1}); a.v[0] = v; x.c = {a}; break; }
    case RT: { auto t = used<double>(name.size()); f.load(&t, name); x.r = {ld(t)}; break; }
    case CT: { auto t = used<tensor::cdouble>(name.size()); f.load(&t, name); x.c = {ld(t)}; break; }
    case VR: { auto t = used_v<double>(name.size()); f.load(&t, name); for (auto &a : t) x.r.push_back(ld(a)); break; }
    case VC: { auto t = used_v<tensor::cdouble>(name.size()); f.load(&t, name); for (auto &a : t) x.c.push_back(ld(a)); break; }
  }
  return x;
}
// what load(kind) should give for a stored record; false when it has to be refused
inline bool expect_load(const Rec &st, Kind k, Rec &out) {
  out = Rec();
  out.k = k;
  switch (k) {
    case INT: case SIZE: {
      if (st.k != RT || st.r[0].size() != 1) return false;
      double v = st.r[0].v[0];
      if (k == INT ? !(v >= -2147483648.0 && v < 2147483648.0) : !(v >= 0 && v < 18446744073709551616.0)) return false;
      out.n = k == INT ? (long)(int)v : (long)(size_t)v;
      return true;
    }
    case REAL: case CPLX: {
      if (st.k != (k == REAL ? RT : CT)) return false;
      if (k == REAL) { if (st.r[0].size() != 1) return false; Arr<double> a(Dims{1}); a.v[0] = st.r[0].v[0]; out.r = {a}; }
      else { if (st.c[0].size() != 1) return false; Arr<cd> a(Dims{1}); a.v[0] = st.c[0].v[0]; out.c = {a}; }
      return true;
    }
    default:
      if (st.k != k) return false;
      out.r = st.r; out.c = st.c;
      return true;
  }
}
inline bool same_loaded(const Rec &x, const Rec &y) { return x.k == y.k && x.n == y.n && same(x.r, y.r) && same(x.c, y.c); }

// ---- generators --------------------------------------------------------------------------
inline std::string gen_name(Src &S, bool ascii = false) {
  static const char *common[] = {"x", "", "a b", "sdf", "sdf481", "energy", "Psi", "0"};
  switch (S.weighted({4, 3, 2, 1})) {
    case 0: return S.elem(common);
    case 1: { std::string s; for (long n = S.range(1, 10); n > 0; --n) s += (char)S.range('a', 'z'); return s; }
    case 2: { std::string s; long n = S.coin() ? S.range(60, 66) : S.range(1, 90); char c0 = (char)S.range('a', 'z'); for (long i = 0; i < n; ++i) s += (char)('a' + (c0 - 'a' + i) % 26); return s; }
    default: { std::string s; for (long n = S.range(1, 70); n > 0; --n) s += ascii ? (char)S.range(32, 126) : (char)S.range(1, 255); return s; }
  }
}
template <class T> Arr<T> gen_tensor(Src &S, long cap) {
  if (S.coin(1, 12)) return Arr<T>();
  Dims d = cap > 400 && S.coin(1, 40) ? gen_dims(S, 1, 3, 3000, false, cap) : S.coin(1, 60) ? gen_deep(S, 7, 12) : gen_dims(S, 1, 6, 4, true, 40);
  return gen_arr<T>(S, d, S.coin() ? V_SPECIAL : V_REAL);
}
inline double any_double(Src &S) {
  if (!S.coin(1, 3)) return gen_num(S, V_SPECIAL);
  uint64_t b = S.bits64();
  double x; memcpy(&x, &b, 8);
  return x;
}
inline Rec gen_rec(Src &S, long cap = 4000, bool ascii = false) {
  Rec x;
  x.k = (Kind)S.draw(8);
  x.name = gen_name(S, ascii);
  switch (x.k) {
    case INT: { static const int E[] = {2147483647, (-2147483647 - 1), -1, 1, 65536}; x.n = S.coin(1, 3) ? S.elem(E) : S.sint(100000); break; }
    case SIZE: { x.n = S.coin(1, 3) ? (long)(S.bits64() >> 11) : (long)S.draw(1000); if (S.coin(1, 8)) x.n = 1L << 53; break; }
    case REAL: { Arr<double> a(Dims{1}); a.v[0] = any_double(S); x.r = {a}; break; }
    case CPLX: { Arr<cd> a(Dims{1}); double p = any_double(S), q = any_double(S); a.v[0] = cd(p, q); x.c = {a}; break; }
    case RT: x.r = {gen_tensor<double>(S, cap)}; break;
    case CT: x.c = {gen_tensor<cd>(S, cap)}; break;
    case VR: for (long n = S.range(0, 4); n > 0; --n) x.r.push_back(gen_tensor<double>(S, cap / 8)); break;
    case VC: for (long n = S.range(0, 4); n > 0; --n) x.c.push_back(gen_tensor<cd>(S, cap / 8)); break;
  }
  return x;
}
inline std::vector<Rec> gen_recs(Src &S, long lo, long hi, long cap = 4000, bool ascii = false) {
  std::vector<Rec> v;
  for (long n = S.range(lo, hi); n > 0; --n) v.push_back(gen_rec(S, cap, ascii));
  return v;
}
}  // namespace sx
using sx::Rec;
#endif
