#include "sdfx.h"
#include "systrap.h"
using namespace sx;
const char *pbt::PROPERTY = "C26";
const char *pbt::RULE =
    "Random sessions (1-4 records of any type, explicit close or end of scope) over random previous contents, in the three modes. One process per crash or fault point: the session's system "
    "calls that touch the files (open, write, close, rename, unlink, truncate, link, sync) are intercepted; the process ends before each of them, or after part of a write, or the call fails with an error, "
    "once or from then on, or writes fewer bytes than asked. A case enumerates all points of its session (a sample of them above 48). Non-trivial: at least three points.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "a crash is the end of the process: data handed to the operating system by completed calls is kept (no power loss)",
    "faults are injected in open, write, close, rename, unlink, truncate and link; flock and the queries (access, stat) work",
    "an error of closing a descriptor through which data was written is a write that could not be completed"};

enum Variant { NONE, DIE_BEFORE, DIE_PARTIAL, ERR_ONCE, ERR_ALWAYS, SHORT };
static const char *VN[] = {"no fault", "dies before", "dies inside", "fails once", "fails from then on", "is short"};
struct Shm {
  long count, k, err, part;
  int variant;
  int fired;          // the fault happened
  int hit_nr;
  int hit_lock;       // on the lock file
  int hit_wrote;      // on a descriptor through which data had been written
  int error_given;    // an error (not a short write) was returned to the program
  int armed;
  char trace[4096];
};
static Shm *shm;
static std::string g_prefix;
static unsigned char fdkind[1024];   // 1 data, 2 lock; 4 written through
static bool is_lock(const char *p) { size_t n = strlen(p); return n > 4 && !strcmp(p + n - 4, ".lck"); }
static long hook(long nr, long *a) {
  using namespace st;
  bool mine = false, lock = false, wrote = false;
  if (!shm->armed) return pass(nr, a);
  if (is_open(nr)) {
    const char *p = open_path(nr, a);
    mine = !strncmp(p, g_prefix.c_str(), g_prefix.size()) && (open_flags(nr, a) & (O_WRONLY | O_RDWR | O_CREAT));
    lock = is_lock(p);
  } else if (is_write(nr) || nr == SYS_close || nr == SYS_ftruncate || nr == SYS_fsync || nr == SYS_fdatasync) {
    mine = a[0] >= 0 && a[0] < 1024 && fdkind[a[0]];
    lock = mine && (fdkind[a[0]] & 2);
    wrote = mine && (fdkind[a[0]] & 4);
  } else if (is_rename(nr) || is_unlink(nr) || nr == SYS_truncate || nr == SYS_link || nr == SYS_linkat) {
    const char *p = (const char *)((nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_unlinkat || nr == SYS_linkat) ? a[1] : a[0]);
    mine = !strncmp(p, g_prefix.c_str(), g_prefix.size());
    lock = is_lock(p);
  }
  if (!mine) return pass(nr, a);
  long me = shm->count++;
  size_t tl = strlen(shm->trace);
  if (tl < sizeof shm->trace - 40) { strcat(shm->trace, name(nr)); strcat(shm->trace, lock ? "(lock) " : " "); }
  int v = shm->variant;
  bool now = v != NONE && (me == shm->k || (v == ERR_ALWAYS && me > shm->k));
  if (now && v == ERR_ALWAYS && me > shm->k && nr != shm->hit_nr) now = false;   // the same call from then on
  if (now) {
    if (!shm->fired) { shm->hit_nr = (int)nr; shm->hit_lock = lock; shm->hit_wrote = wrote && nr == SYS_close; }
    shm->fired = 1;
    if (v == DIE_BEFORE) die(77);
    if (v == DIE_PARTIAL) { if (is_write(nr)) partial(nr, a, write_len(nr, a) * shm->part / 16); else pass(nr, a); die(77); }
    if (v == SHORT) { if (is_write(nr) && write_len(nr, a) > 1) { fdkind[a[0]] |= 4; return partial(nr, a, 1 + (write_len(nr, a) - 1) * shm->part / 16); } }
    else {
      shm->error_given = 1;
      if (nr == SYS_close) { fdkind[a[0]] = 0; pass(nr, a); }   // a close that fails has closed all the same
      return -shm->err;
    }
  }
  long r = pass(nr, a);
  if (is_open(nr) && r >= 0 && r < 1024) fdkind[r] = lock ? 2 : 1;
  if (is_write(nr) && r > 0 && a[0] < 1024) fdkind[a[0]] |= 4;
  if (nr == SYS_close && r == 0 && a[0] >= 0 && a[0] < 1024) fdkind[a[0]] = 0;
  return r;
}

struct Session {
  int mode;
  bool close;
  std::vector<Rec> recs;
  void operator()(const std::string &f) const {
    sdf::OutDataFile out(f, mode);
    for (auto &x : recs) dump(out, x);
    if (close) out.close();
  }
};
static const char *mode_name(int m) { return m == 0 ? "overwrite" : m == 1 ? "append" : "safe overwrite"; }
static Session gen_session(Src &S, int mode) {
  Session s;
  s.mode = mode;
  s.close = S.coin();
  s.recs = gen_recs(S, S.coin(1, 8) ? 0 : 1, 3, S.coin(1, 6) ? 3000 : 30);
  NOTE("session, " << mode_name(mode) << (s.close ? ", closed:" : ", left to the end of scope:"));
  for (auto &x : s.recs) { NOTE("  " << show(x)); }
  return s;
}
struct Before { bool exists, tmp, lck; std::vector<Rec> recs; std::string bytes; };
static Before gen_before(Src &S) {
  Before b;
  b.exists = S.coin(3, 4);
  b.tmp = S.coin(1, 4);
  b.lck = S.coin(1, 4);
  if (b.exists) {
    b.recs = gen_recs(S, 0, 3, 60);
    Enc e; e.header();
    for (auto &x : b.recs) e.rec(x);
    b.bytes = e.out;
    if (b.recs.empty() && S.coin()) b.bytes.clear();
  }
  NOTE("before: " << (b.exists ? "file of " + std::to_string(b.bytes.size()) + " bytes" : std::string("no file")) << (b.tmp ? ", a stale temporary file" : "") << (b.lck ? ", a stale lock file" : ""));
  return b;
}
static std::string restore(const Before &b) {
  std::string f = fresh_file();
  if (b.exists) spit(f, b.bytes);
  if (b.tmp) spit(f + ".tmp", header_bytes() + "stale");
  if (b.lck) spit(f + ".lck", "");
  return f;
}
static Outcome run(const std::string &f, const Session &s, int variant, long k, long err, long part, std::string *tail = 0) {
  if (!shm) shm = st::shared<Shm>();
  memset(shm, 0, sizeof *shm);
  shm->variant = variant; shm->k = k; shm->err = err; shm->part = part;
  g_prefix = f;
  memset(fdkind, 0, sizeof fdkind);
  return probe([&] {
    if (!st::install(hook)) { shm->fired = -1; }
    shm->armed = 1;
    s(f);
    shm->armed = 0;
  }, tail);
}
// the complete result of a session on top of what was there
static std::string complete(const Before &b, const Session &s, const std::string &bytes) {
  std::vector<Rec> want;
  if (s.mode == 1) want = b.recs;
  want.insert(want.end(), s.recs.begin(), s.recs.end());
  return compare_file(bytes, want);
}
static std::vector<long> points(Src &S, long n) {
  std::vector<long> v;
  if (n <= 48) for (long i = 0; i < n; ++i) v.push_back(i);
  else {
    for (long i = 0; i < 8; ++i) v.push_back(i);
    for (long i = n - 12; i < n; ++i) v.push_back(i);
    for (long i = 0; i < 28; ++i) v.push_back(8 + (long)S.draw(n - 20));
  }
  return v;
}
// runs the session without faults; returns the number of calls
static long dry_run(const Before &b, const Session &s) {
  std::string f = restore(b), tail, bytes;
  Outcome o = run(f, s, NONE, -1, 0, 0, &tail);
  if (shm->fired == -1) { label("no system call interception here"); DISCARD(); }
  if (o != RETURNED) FAIL("session without any fault: " << outcome_name(o) << " " << tail.substr(0, 500));
  if (!slurp(f, bytes)) FAIL("session without any fault leaves no file");
  std::string d = complete(b, s, bytes);
  if (!d.empty()) FAIL("session without any fault: " << d);
  NOTE("calls: " << shm->trace);
  return shm->count;
}
// what must hold after the session ended in any way
static void check_survivors(const Before &b, const Session &s, const std::string &f, const std::string &when) {
  std::string bytes;
  bool there = slurp(f, bytes);
  if (s.mode == 4) {
    bool old = b.exists ? there && bytes == b.bytes : !there;
    if (!old) {
      if (!there) FAIL(when << ": the file has disappeared");
      std::string d = complete(b, s, bytes);
      if (!d.empty()) FAIL(when << ": the file has neither its previous nor its new contents: " << d);
    }
  } else if (s.mode == 1) {
    if (b.exists && (!there || bytes.compare(0, b.bytes.size(), b.bytes) != 0)) FAIL(when << ": the records already stored have changed");
    if (b.exists && b.bytes.size()) {
      sdf::InDataFile in(f);
      for (auto &x : b.recs) {
        Rec ex;
        if (!expect_load(stored(x), x.k, ex)) continue;
        Rec got = load(in, x.k, x.name);
        if (!same_loaded(got, ex)) FAIL(when << ": an earlier record is read as " << show(got) << " instead of " << show(ex));
      }
    }
  }
}
// a later session works whatever was left
static void check_recovery(Src &S, const Session &s, const std::string &f, const std::string &when) {
  Session again = s;
  again.recs = s.recs;
  Rec x = Rec(); x.k = INT; x.name = "again"; x.n = 7;
  again.recs.push_back(x);
  std::string before, after;
  slurp(f, before);
  again(f);
  if (!slurp(f, after)) FAIL(when << ", then a new session: no file");
  if (s.mode != 1) {
    std::string d = compare_file(after, again.recs);
    if (!d.empty()) FAIL(when << ", then a new session: " << d);
    if (s.mode == 4 && exists(f + ".tmp")) FAIL(when << ", then a new session: the temporary file remains");
  } else {
    if (before.empty()) before = header_bytes();
    for (auto &y : again.recs) before += rec_bytes(y);
    if (after != before) FAIL(when << ", then a new session: the new records are not all there after what was stored");
  }
}

static void crashes(Src &S, int mode) {
  Before b = gen_before(S);
  Session s = gen_session(S, mode);
  long n = dry_run(b, s);
  if (n >= 3) nontrivial();
  int also_partial = (int)S.draw(4);
  for (long k : points(S, n)) {
    for (int v = DIE_BEFORE; v <= (also_partial ? DIE_PARTIAL : DIE_BEFORE); ++v) {
      std::string f = restore(b), tail;
      Outcome o = run(f, s, v, k, 0, also_partial * 5, &tail);
      std::ostringstream w;
      w << "process " << VN[v] << " call " << k << " (" << st::name(shm->hit_nr) << ") of " << n;
      if (!shm->fired) continue;   // another order of calls
      if (o == CRASHED || o == HUNG) FAIL(w.str() << ": " << outcome_name(o));
      check_survivors(b, s, f, w.str());
      if (k % 4 == (long)(n % 4)) check_recovery(S, s, f, w.str());
    }
  }
}
TEST(crash_safe_overwrite, 450, 12000) { crashes(S, 4); }
TEST(crash_append, 350, 10000) { crashes(S, 1); }

static void faults(Src &S, int mode) {
  static const int ERRS[] = {ENOSPC, EIO, EDQUOT, EACCES, EROFS, EMFILE, EFBIG};
  Before b = gen_before(S);
  Session s = gen_session(S, mode);
  long n = dry_run(b, s);
  if (n >= 3) nontrivial();
  int err = S.elem(ERRS);
  int part = (int)S.draw(16);
  for (long k : points(S, n)) {
    for (int v = ERR_ONCE; v <= SHORT; ++v) {
      std::string f = restore(b), tail, bytes;
      Outcome o = run(f, s, v, k, err, part, &tail);
      if (!shm->fired) continue;
      std::ostringstream w;
      w << mode_name(mode) << ": call " << k << " (" << st::name(shm->hit_nr) << (shm->hit_lock ? " of the lock" : "") << ") of " << n << " " << VN[v];
      if (v != SHORT) w << " with " << strerror(err);
      label(std::string(st::name(shm->hit_nr)) + " " + VN[v] + ": " + outcome_name(o));
      if (o == CRASHED || o == HUNG) FAIL(w.str() << ": " << outcome_name(o) << " " << tail.substr(0, 300));
      if (o == RETURNED) {
        if (!slurp(f, bytes)) FAIL(w.str() << ": taken as success, but there is no file");
        std::string d = complete(b, s, bytes);
        if (!d.empty()) FAIL(w.str() << ": taken as success, but " << d);
        if (shm->hit_wrote && shm->error_given && !shm->hit_lock) FAIL(w.str() << ": the error of closing the file is ignored");
      } else if (v == SHORT && !shm->error_given) FAIL(w.str() << ": a short write is not continued but ends in: " << tail.substr(0, 200));
      check_survivors(b, s, f, w.str());
    }
  }
}
TEST(fault_overwrite, 150, 4000) { faults(S, 0); }
TEST(fault_append, 150, 4000) { faults(S, 1); }
TEST(fault_safe_overwrite, 150, 4000) { faults(S, 4); }

// the temporary file vanishes, or cannot be put in place
TEST(lost_temporary, 600, 10000) {
  Before b = gen_before(S);
  Session s = gen_session(S, 4);
  int how = (int)S.draw(2);
  long at = (long)S.draw(s.recs.size() + 1);
  NOTE((how ? "a directory takes the name of the file" : "the temporary file is deleted") << " before record " << at);
  std::string f = restore(b);
  nontrivial();
  must_refuse("closing after losing the temporary file or its destination", [&] {
    sdf::OutDataFile out(f, 4);
    for (size_t i = 0; i <= s.recs.size(); ++i) {
      if ((long)i == at) { if (how) { unlink(f.c_str()); mkdir(f.c_str(), 0777); } else unlink((f + ".tmp").c_str()); }
      if (i < s.recs.size()) dump(out, s.recs[i]);
    }
    if (s.close) out.close();
  });
  rmdir(f.c_str());
}

// targets that cannot be opened
TEST(unopenable, 1500, 30000) {
  std::string dir = scratch_dir() + "/u";
  static const int MODES[] = {0, 1, 4};
  Session s = gen_session(S, S.elem(MODES));
  std::string f;
  std::string what;
  bool drop = false;
  mkdir(dir.c_str(), 0755);
  std::string old = header_bytes();
  switch (S.draw(6)) {
    case 0: f = dir + "/missing/data"; what = "missing directory"; break;
    case 1: spit(dir + "/plain", "x"); f = dir + "/plain/data"; what = "a file for a directory"; break;
    case 2: f = dir + "/isdir"; mkdir(f.c_str(), 0755); if (s.mode == 4) { mkdir((f + ".tmp").c_str(), 0755); } what = "a directory for a file"; break;
    case 3: f = dir + "/" + std::string((size_t)S.range(260, 400), 'n'); what = "name too long"; break;
    case 4: f = dir + "/"; what = "no name"; break;
    default:   // as another user, who may not write here
      if (geteuid() != 0) DISCARD();
      drop = true;
      f = dir + "/readonly"; spit(f, old); chmod(f.c_str(), 0444);
      spit(f + ".lck", ""); chmod((f + ".lck").c_str(), 0666);
      what = "no permission";
  }
  NOTE(what);
  label(what);
  nontrivial();
  must_refuse("writing to " + what + " in mode " + mode_name(s.mode), [&] {
    if (drop && (setgid(65534) || setuid(65534))) abort();
    s(f);
  });
  if (drop) { std::string now; slurp(f, now); if (now != old) FAIL("a file without write permission has changed"); }
  unlink((dir + "/plain").c_str()); unlink((dir + "/readonly").c_str()); unlink((dir + "/readonly.lck").c_str()); unlink((dir + "/isdir.lck").c_str());
  rmdir((dir + "/isdir").c_str()); rmdir((dir + "/isdir.tmp").c_str()); rmdir(dir.c_str());
}
