#include "sdfx.h"
#include <map>
#include <sys/wait.h>
using namespace sx;
const char *pbt::PROPERTY = "C25";
const char *pbt::RULE =
    "Random sequences of records (all eight types; shapes of rank 0-6 with zero sizes; arbitrary bit patterns, NaN payloads, infinities, subnormals; names empty, with any byte, up to 90 "
    "characters, looking like a header; now and then hundreds of thousands of elements, thousands of tensors or hundreds of records and sessions), split over 1-4 sessions in the three open modes, possibly over an existing file. The file is compared with an independent parser of the format and "
    "read back with the library into destinations with earlier contents; files made by an independent encoder, of this and of other machines, are read by the library and by python/sdf.py. Non-trivial: at least two records.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "integers are stored as doubles: size_t values up to 2^53", "names have no NUL character and are significant up to 63 characters",
    "files are read in the shared mode", "python/sdf.py is run with the numpy of the python3-vt environment, on names in ASCII; without it that test does nothing"};

static std::string shorten(Src &S, const std::string &n) {   // a name by which the record can be asked for
  switch (S.draw(3)) { case 0: return n; case 1: return ""; default: return n.substr(0, 63); }
}
static void read_back(Src &S, const std::string &file, const std::vector<Rec> &want) {
  sdf::InDataFile in(file);
  for (size_t i = 0; i < want.size(); ++i) {
    Rec st = stored(want[i]), ex;
    Kind k = want[i].k;
    if (S.coin(1, 3)) {   // as another of the types that fit
      Kind alt[] = {k, st.k, is_cplx(k) ? CPLX : REAL, INT, SIZE};
      k = S.elem(alt);
      if (!expect_load(st, k, ex)) k = want[i].k;
    }
    if (!expect_load(st, k, ex)) FAIL("model: " << show(want[i]) << " cannot be loaded as it was dumped");
    Rec got = load(in, k, shorten(S, want[i].name));
    if (!same_loaded(got, ex)) FAIL("record " << i << " is read as " << show(got) << " instead of " << show(ex));
  }
  if (S.coin()) { in.close(); if (S.coin()) in.close(); }
}

TEST(round_trip, 40000, 900000) {
  std::string file = fresh_file();
  std::vector<Rec> want;
  long sessions = S.range(1, 4);
  bool had = false;
  if (S.coin(1, 4)) { spit(file + ".tmp", S.coin() ? "stale" : header_bytes() + "stale"); }
  if (S.coin(1, 5)) spit(file + ".lck", "");
  for (long s = 0; s < sessions; ++s) {
    static const int MODES[] = {sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_OVERWRITE, sdf::DataFile::SDF_PARANOID};
    int mode = S.elem(MODES);
    std::vector<Rec> recs = gen_recs(S, S.coin(1, 6) ? 0 : 1, 5);
    NOTE("session " << s << " mode " << mode << ":");
    if (mode != sdf::DataFile::SDF_SHARED) want.clear();
    {
      sdf::OutDataFile out(file, mode);
      for (auto &x : recs) { NOTE("  " << show(x)); dump(out, x); want.push_back(x); label(KNAME[x.k]); }
      if (S.coin()) { out.close(); if (S.coin()) out.close(); }
    }
    label(mode == 1 ? "appended" : mode == 0 ? "overwritten" : "safely overwritten");
    had = true;
    std::string bytes, diff;
    if (!slurp(file, bytes)) FAIL("no file after session " << s);
    diff = compare_file(bytes, want);
    if (!diff.empty()) FAIL("after session " << s << " in mode " << mode << " the file is not as written: " << diff);
    if (mode == sdf::DataFile::SDF_PARANOID && exists(file + ".tmp")) FAIL("the temporary file remains after closing");
    if (S.coin(1, 3)) read_back(S, file, want);
  }
  if (want.size() >= 2) nontrivial();
  read_back(S, file, want);
  if (S.coin(1, 4)) read_back(S, file, want);
}

// more elements, more tensors in a vector and more records than the small cases have
TEST(large, 120, 1500) {
  std::string file = fresh_file();
  std::vector<Rec> want;
  int what = (int)S.draw(5);
  static const char *W[] = {"many elements", "many tensors", "many records", "large and small", "many sessions"};
  label(W[what]);
  auto tensor = [&](long n) { Rec x; x.k = S.coin() ? RT : CT; x.name = gen_name(S); Dims d = S.coin() ? Dims{n} : Dims{S.range(1, 9), n / 8}; if (x.k == RT) x.r = {gen_arr<double>(S, d, V_SPECIAL)}; else x.c = {gen_arr<cd>(S, d, V_SPECIAL)}; return x; };
  switch (what) {
    case 0: want.push_back(tensor(S.range(66000, 400000))); break;
    case 1: { Rec x; x.k = S.coin() ? VR : VC; x.name = gen_name(S); long n = S.range(250, 6000);
      Arr<double> a = gen_arr<double>(S, Dims{2}, V_REAL); Arr<cd> c = gen_arr<cd>(S, Dims{1, 2}, V_REAL);
      for (long i = 0; i < n; ++i) { a.v[0] = (double)i; c.v[1] = cd(1, (double)i); if (x.k == VR) x.r.push_back(i % 7 == 3 ? Arr<double>() : a); else x.c.push_back(i % 5 == 2 ? Arr<cd>(Dims{0, 3}) : c); }
      want.push_back(x); break; }
    case 2: case 4: for (long i = 0, n = S.range(70, 700); i < n; ++i) { Rec x; x.k = REAL; x.name = "v" + std::to_string(i % 300); Arr<double> a(Dims{1}); a.v[0] = (double)i; x.r = {a}; want.push_back(x); } break;
    default: for (long i = S.range(2, 6); i > 0; --i) want.push_back(S.coin() ? gen_rec(S) : tensor(S.range(1000, 70000)));
  }
  long step = what == 4 ? S.range(1, 4) : (long)want.size();
  int mode = what == 4 || S.coin() ? sdf::DataFile::SDF_SHARED : S.coin() ? sdf::DataFile::SDF_OVERWRITE : sdf::DataFile::SDF_PARANOID;
  NOTE(W[what] << ": " << want.size() << " records, first " << show(want[0]).substr(0, 200) << ", " << step << " a session, mode " << mode);
  nontrivial();
  for (size_t i = 0; i < want.size(); i += step) {
    sdf::OutDataFile out(file, mode);
    for (size_t j = i; j < i + step && j < want.size(); ++j) dump(out, want[j]);
  }
  std::string bytes;
  if (!slurp(file, bytes)) FAIL("no file");
  std::string diff = compare_file(bytes, want);
  if (!diff.empty()) FAIL("the file is not as written: " << diff.substr(0, 2000));
  read_back(S, file, want);
}

// two files at a time do not disturb each other
TEST(two_files, 10000, 200000) {
  std::string f[2] = {fresh_file("one"), fresh_file("two")};
  std::vector<Rec> want[2];
  {
    int m0 = S.coin() ? 1 : S.coin() ? 0 : 4, m1 = S.coin() ? 1 : S.coin() ? 0 : 4;
    sdf::OutDataFile a(f[0], m0), b(f[1], m1);
    for (long n = S.range(1, 10); n > 0; --n) {
      int w = (int)S.draw(2);
      Rec x = gen_rec(S);
      NOTE("file " << w << ": " << show(x));
      dump(w ? b : a, x);
      want[w].push_back(x);
    }
    if (S.coin()) { a.close(); Rec x = gen_rec(S); dump(b, x); want[1].push_back(x); }
  }
  if (want[0].size() && want[1].size()) nontrivial();
  for (int w = 0; w < 2; ++w) {
    std::string bytes;
    if (!slurp(f[w], bytes)) FAIL("no file " << w);
    std::string diff = compare_file(bytes, want[w]);
    if (!diff.empty()) FAIL("file " << w << ": " << diff);
  }
  sdf::InDataFile a(f[0]), b(f[1]);
  size_t i = 0, j = 0;
  while (i < want[0].size() || j < want[1].size()) {
    bool second = i >= want[0].size() || (j < want[1].size() && S.coin());
    Rec w = second ? want[1][j++] : want[0][i++], ex;
    if (!expect_load(stored(w), w.k, ex)) FAIL("model");
    Rec got = load(second ? b : a, w.k, w.name);
    if (!same_loaded(got, ex)) FAIL("record of file " << second << " is read as " << show(got) << " instead of " << show(ex));
  }
}

// files made elsewhere: anything may follow the end of a name
TEST(files_of_others, 20000, 500000) {
  std::string file = fresh_file();
  std::vector<Rec> want = gen_recs(S, 1, 6);
  std::string bytes = header_bytes();
  for (auto &x : want) bytes += rec_bytes(x);
  // junk after the NUL that ends a top-level name or the header
  size_t pos = 0;
  bool junk = S.coin();
  std::vector<size_t> starts = {0};
  size_t at = 64;
  for (auto &x : want) { starts.push_back(at); at += rec_bytes(x).size(); }
  if (junk) for (size_t st : starts) {
    size_t z = bytes.find('\0', st);
    for (size_t i = z + 1; i < st + 64; ++i) bytes[i] = (char)S.draw(256);
  }
  (void)pos;
  for (auto &x : want) NOTE(show(x));
  spit(file, bytes);
  if (want.size() >= 2) nontrivial();
  label(junk ? "junk after names" : "plain");
  read_back(S, file, want);
  // appending to it keeps it
  Rec extra = gen_rec(S);
  { sdf::OutDataFile out(file); dump(out, extra); }
  want.push_back(extra);
  read_back(S, file, want);
}

// other word sizes or byte orders: read correctly or refused
TEST(foreign_machines, 5000, 100000) {
  std::string file = fresh_file();
  Enc e;
  e.lsize = S.coin() ? 4 : 8;
  e.big = e.lsize == 8 ? true : S.coin();
  e.header();
  if (S.coin(1, 4)) { e.out[3] = (char)('0' + S.draw(10)); if (e.out[3] == '4') e.out[3] = '2'; }
  std::vector<Rec> want = gen_recs(S, 1, 4, 100);
  for (auto &x : want) { NOTE(show(x)); e.rec(x); }
  NOTE("header " << quote(e.out.substr(0, 6)));
  label("header " + e.out.substr(0, 6));
  nontrivial();
  spit(file, e.out);
  uint64_t pick = S.draw(1000);
  Outcome o = must_not_crash("reading a file of another machine", [&] {
    sdf::InDataFile in(file);
    for (auto &x : want) {
      Rec ex;
      if (!expect_load(stored(x), x.k, ex)) continue;
      Rec got = load(in, x.k, pick % 2 ? x.name : "");
      if (!same_loaded(got, ex)) { fprintf(stderr, "MISREAD %s\n", show(got).c_str()); raise(SIGSEGV); }
    }
  });
  label(outcome_name(o));
}

// ---- the independent reader that comes with the library -----------------------------------
static const char *PY = R"(
import sys, struct
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import numpy as np, sdf
def txt(o):
    if type(o) is list:
        return 'L%d(' % len(o) + ';'.join(txt(x) for x in o) + ')'
    o = np.asarray(o)
    big = sys.byteorder
    d = ','.join(str(n) for n in o.shape)
    data = np.asfortranarray(o).ravel(order='F')
    data = data.astype(data.dtype.newbyteorder('<'))
    return ('C' if np.iscomplexobj(o) else 'R') + '(' + d + ')' + data.tobytes().hex()
for name in sys.argv[2:]:
    print('FILE')
    try:
        r = sdf.load(name)
        for k, v in r.items():
            print('%s=%s' % (k.encode().hex(), txt(v)))
    except Exception as e:
        print('ERROR %s' % e)
)";
template <class T> static std::string hex_of(const Arr<T> &a) {
  std::string o = sizeof(T) == 16 ? "C(" : "R(";
  // a tensor without dimensions is an empty vector for numpy
  if (!a.rank()) o += "0";
  for (size_t i = 0; i < a.d.size(); ++i) o += (i ? "," : "") + std::to_string(a.d[i]);
  o += ")";
  const unsigned char *p = (const unsigned char *)a.v.data();
  for (size_t i = 0; i < a.v.size() * sizeof(T); ++i) { char b[3]; snprintf(b, 3, "%02x", p[i]); o += b; }
  return o;
}
static std::string hexs(const std::string &s) { std::string o; for (unsigned char c : s) { char b[3]; snprintf(b, 3, "%02x", c); o += b; } return o; }
static std::string py_text(const Rec &st) {
  if (st.k == RT) return hex_of(st.r[0]);
  if (st.k == CT) return hex_of(st.c[0]);
  std::string o = "L" + std::to_string(st.k == VR ? st.r.size() : st.c.size()) + "(";
  bool first = true;
  for (auto &a : st.r) { o += (first ? "" : ";") + hex_of(a); first = false; }
  for (auto &a : st.c) { o += (first ? "" : ";") + hex_of(a); first = false; }
  return o + ")";
}
TEST(python_reader, 120, 3000) {
  static const char *py = access("/opt/veriftools/pyvenv/bin/python", X_OK) == 0 ? "/opt/veriftools/pyvenv/bin/python" : 0;
  if (!py) { label("no python"); return; }
  std::string dir = scratch_dir();
  const char *repo = getenv("REPO") ? getenv("REPO") : "/repo";
  long nfiles = S.range(1, 12);
  std::string cmd;
  std::vector<std::vector<Rec>> all;
  spit(dir + "/reader.py", PY);
  cmd = std::string(py) + " " + dir + "/reader.py " + repo + "/python";
  for (long i = 0; i < nfiles; ++i) {
    std::string f = fresh_file(("py" + std::to_string(i)).c_str());
    std::vector<Rec> recs = gen_recs(S, 0, 6, 400, true);
    long how = S.draw(4);
    NOTE("file " << i << " made by " << (how == 0 ? "the library" : how == 1 ? "a big-endian machine" : how == 2 ? "a 32-bit machine" : "a big-endian 32-bit machine"));
    for (auto &x : recs) { NOTE("  " << show(x)); }
    if (how == 0) { sdf::OutDataFile out(f); for (auto &x : recs) dump(out, x); }
    else { Enc e; e.big = how & 1; e.lsize = how & 2 ? 4 : 8; e.header(); for (auto &x : recs) e.rec(x); spit(f, e.out); }
    label(how == 0 ? "library" : how == 1 ? "big endian" : how == 2 ? "32 bits" : "big endian 32 bits");
    cmd += " " + f;
    all.push_back(recs);
  }
  cmd += " > " + dir + "/out.txt 2>" + dir + "/err.txt";
  nontrivial();
  int rc = system(cmd.c_str());
  std::string text, err;
  slurp(dir + "/out.txt", text); slurp(dir + "/err.txt", err);
  if (rc) FAIL("python reader ended with " << rc << ": " << err.substr(0, 300));
  std::istringstream in(text);
  std::string line;
  std::getline(in, line);
  for (size_t i = 0; i < all.size(); ++i) {
    std::map<std::string, std::string> want, got;
    for (auto &x : all[i]) want[hexs(stored(x).name)] = py_text(stored(x));
    while (std::getline(in, line) && line != "FILE") {
      if (line.compare(0, 5, "ERROR") == 0) FAIL("file " << i << ": python reader says " << line);
      size_t e = line.find('=');
      got[line.substr(0, e)] = line.substr(e + 1);
    }
    for (auto &w : want) if (!got.count(w.first)) FAIL("file " << i << ": python reader misses record 0x" << w.first);
      else if (got[w.first] != w.second) FAIL("file " << i << ": python reader gives " << got[w.first].substr(0, 300) << " for record 0x" << w.first << " instead of " << w.second.substr(0, 300));
    if (got.size() != want.size()) FAIL("file " << i << ": python reader gives " << got.size() << " records instead of " << want.size());
  }
}
