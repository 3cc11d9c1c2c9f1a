#include "sdfx.h"
#include "systrap.h"
#include <sys/wait.h>
#include <poll.h>
#include <sys/resource.h>
#include <algorithm>
using namespace sx;
const char *pbt::PROPERTY = "C28";
const char *pbt::RULE =
    "2-4 processes, each with 1-3 sessions on the same file in the shared mode (appending 0-2 records, or reading everything). Every system call of theirs that touches files, locks or the clock is a scheduling "
    "point: the check decides, call by call, which process goes on or is killed (sleeping takes no time), then lets the survivors run in turns until all end. Random walks, bursts, and preemptions aimed at the calls "
    "on the lock. Over the history: never two processes between opening and closing, sessions contiguous and complete in the file, none lost, readers see complete sessions, everybody finishes. "
    "Non-trivial: some process found the lock taken, or a process was killed.";
const std::vector<std::string> pbt::ASSUMPTIONS = {
    "processes of one machine and flock that works; a process dies between two system calls", "fair scheduling in the end: a waiting process is given its turn again and again",
    "a process that dies inside a session may leave the beginning of its bytes"};

enum { MAXP = 4, MAXS = 3 };
struct Proc {
  int session;         // sessions begun
  int inside;          // between the return of the constructor and the call of close
  int finished;        // sessions completed
  int bad;             // a reader saw something wrong
  char why[400];
};
struct Shm { Proc p[MAXP]; };
static Shm *shm;
static int g_me, g_ask, g_tell;   // child: index and pipe ends
static bool g_on;
static std::string g_dir;

struct Msg { int kind; int nr; char path[200]; };   // what the process is about to do
static unsigned char fdk[1024];
static long hook(long nr, long *a) {
  using namespace st;
  if (!g_on) return pass(nr, a);
  const char *path = 0;
  bool sleeping = nr == SYS_nanosleep || nr == SYS_clock_nanosleep, mine = sleeping;
  if (is_open(nr)) path = open_path(nr, a);
  else if (is_rename(nr) || is_unlink(nr) || nr == SYS_access || nr == SYS_faccessat || nr == SYS_faccessat2 || nr == SYS_stat || nr == SYS_lstat || nr == SYS_newfstatat || nr == SYS_statx || nr == SYS_mkdir || nr == SYS_link || nr == SYS_linkat || nr == SYS_truncate) {
    bool at = nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_unlinkat || nr == SYS_faccessat || nr == SYS_faccessat2 || nr == SYS_newfstatat || nr == SYS_statx || nr == SYS_linkat;
    path = (const char *)(at ? a[1] : a[0]);
  } else if (!sleeping) mine = a[0] >= 0 && a[0] < 1024 && fdk[a[0]];
  if (path) mine = !strncmp(path, g_dir.c_str(), g_dir.size());
  if (!mine) return pass(nr, a);
  Msg m;
  memset(&m, 0, sizeof m);
  m.nr = (int)nr;
  m.kind = (nr == SYS_flock || (path && is_lock_name(path)) || (!path && !sleeping && (fdk[a[0]] & 2))) ? 2 : sleeping ? 3 : 1;
  if (path) { size_t n = strlen(path); const char *b = path + g_dir.size(); (void)n; strncpy(m.path, b, sizeof m.path - 1); }
  bool blocking = (nr == SYS_flock && !(a[1] & LOCK_NB) && !(a[1] & LOCK_UN)) || (nr == SYS_fcntl && (a[1] == F_SETLKW || a[1] == F_OFD_SETLKW));
  for (;;) {
    pass1(SYS_write, g_ask, (long)&m, sizeof m);
    char go;
    long r = raw(SYS_read, g_tell, (long)&go, 1, 0, 0, 0);
    if (r != 1) die(66);
    if (sleeping) return 0;
    long b[5] = {a[0], a[1], a[2], a[3], a[4]};
    if (blocking) { if (nr == SYS_flock) b[1] |= LOCK_NB; else b[1] = a[1] == F_SETLKW ? F_SETLK : F_OFD_SETLK; }
    long v = pass(nr, b);
    if (blocking && (v == -EWOULDBLOCK || v == -EAGAIN || v == -EACCES)) { m.kind = 3; continue; }   // still waiting
    if (is_open(nr) && v >= 0 && v < 1024) fdk[v] = is_lock_name(path) ? 2 : 1;
    if (nr == SYS_close && a[0] >= 0 && a[0] < 1024) fdk[a[0]] = 0;
    return v;
  }
}

struct Sess { bool reader; std::vector<Rec> recs; std::string bytes; };
struct Plan { std::vector<Sess> s; };

// the sessions that appear in the bytes: header, then complete sessions, then nothing else
// (prefixes of sessions of dead processes allowed when some may have died)
struct Layout {
  const std::vector<Plan> &P;
  const std::vector<int> &dead;   // -1 alive, else index of the session during which it died
  std::string why;
  Layout(const std::vector<Plan> &p, const std::vector<int> &d) : P(p), dead(d) {}
  std::vector<int> next, order;
  bool match(const std::string &b, size_t pos, const std::vector<int> &upto) {
    bool done = pos == b.size();
    if (done) {
      bool all = true;
      for (size_t i = 0; i < P.size(); ++i) {
        int n = next[i];
        while (n < (int)P[i].s.size() && (P[i].s[n].reader || P[i].s[n].bytes.empty())) ++n;
        if (n < upto[i]) all = false;
      }
      return all;
    }
    for (size_t i = 0; i < P.size(); ++i) {
      int old = next[i], n = next[i];
      while (n < (int)P[i].s.size() && (P[i].s[n].reader || P[i].s[n].bytes.empty())) ++n;
      if (n >= (int)P[i].s.size()) continue;
      const std::string &s = P[i].s[n].bytes;
      if (b.compare(pos, s.size(), s) == 0) {
        next[i] = n + 1;
        if (match(b, pos + s.size(), upto)) return true;
        next[i] = old;
      }
      if (dead[i] == n) {   // its beginning only
        size_t l = 0;
        while (l < s.size() && pos + l < b.size() && b[pos + l] == s[l]) ++l;
        for (; l > 0; --l) {
          next[i] = n + 1;
          if (match(b, pos + l, upto)) return true;
          next[i] = old;
        }
      }
    }
    return false;
  }
};

static const char *call_name(const Msg &m) { return m.kind == 3 ? "waits" : st::name(m.nr); }

static void go(Src &S, int style) {
  if (!shm) shm = st::shared<Shm>();
  memset(shm, 0, sizeof *shm);
  int np = style == 2 ? 2 : (int)S.range(2, MAXP);
  std::string file = fresh_file("shared");
  std::string initial;
  // there is always a first complete session, unless nobody reads
  bool readers = S.coin();
  bool had = readers || S.coin();
  if (had) {
    initial = header_bytes();
    if (S.coin()) { Rec x; x.k = INT; x.name = "first"; x.n = 1; initial += rec_bytes(x); }
    spit(file, initial);
  }
  if (S.coin(1, 4)) { spit(file + ".lck", ""); NOTE("a lock file was left"); }
  bool deaths = S.coin(1, 3);
  std::vector<Plan> P(np);
  for (int i = 0; i < np; ++i) {
    int ns = (int)S.range(1, style == 2 ? 2 : MAXS);
    for (int s = 0; s < ns; ++s) {
      Sess x;
      x.reader = readers && S.coin(1, 3);
      std::ostringstream what;
      for (long n = x.reader ? 0 : S.range(0, 2); n > 0; --n) {
        Rec r;
        r.k = S.coin(1, 4) ? RT : INT;
        r.name = "p" + std::to_string(i) + "s" + std::to_string(s) + "r" + std::to_string(n);
        r.n = 100 * i + 10 * s + n;
        if (r.k == RT) { r.n = 0; r.r = {tag_arr<double>(Dims{S.range(0, 3)}, 100 * i)}; }
        x.recs.push_back(r);
        x.bytes += rec_bytes(r);
      }
      P[i].s.push_back(x);
      what << (x.reader ? "reads" : "appends " + std::to_string(x.recs.size()));
      NOTE("process " << i << " session " << s << ": " << what.str());
    }
  }
  // start them
  pid_t pid[MAXP];
  int ask[MAXP], tell[MAXP];
  fflush(0);
  for (int i = 0; i < np; ++i) {
    int a[2], t[2];
    if (pipe(a) || pipe(t)) abort();
    pid_t p = fork();
    if (p < 0) abort();
    if (p == 0) {
      for (int j = 0; j < i; ++j) { close(ask[j]); close(tell[j]); }
      close(a[0]); close(t[1]);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1); dup2(nul, 2);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      alarm(120);
      g_me = i; g_ask = a[1]; g_tell = t[0];
      g_dir = scratch_dir();
      memset(fdk, 0, sizeof fdk);
      if (!st::install(hook)) st::die(65);
      Proc &me = shm->p[i];
      for (auto &s : P[i].s) {
        ++me.session;
        if (s.reader) {
          g_on = true;
          sdf::InDataFile in(file);
          me.inside = 1;
          // what is in the file while we have it
          g_on = false;
          std::string b1, b2;
          slurp(file, b1);
          g_on = true;
          { struct stat sb; stat(file.c_str(), &sb); stat(file.c_str(), &sb); }   // others may run here
          g_on = false;
          slurp(file, b2);
          g_on = true;
          if (b1 != b2) { me.bad = 1; strcpy(me.why, "the file changed while it was open for reading"); }
          else if (!deaths) {
            Par q(b1);
            Rec x;
            bool ok = q.header();
            while (ok && q.p < b1.size()) ok = q.rec(x);
            if (!ok) { me.bad = 1; snprintf(me.why, sizeof me.why, "the file ends in a half-written session (%zu bytes, %zu understood)", b1.size(), q.p); }
          }
          me.inside = 0;
          in.close();
          g_on = false;
        } else {
          g_on = true;
          {
            sdf::OutDataFile outf(file);
            me.inside = 1;
            for (auto &x : s.recs) dump(outf, x);
            me.inside = 0;
            outf.close();
          }
          g_on = false;
        }
        ++me.finished;
      }
      st::die(0);
    }
    close(a[1]); close(t[0]);
    pid[i] = p; ask[i] = a[0]; tell[i] = t[1];
  }
  // drive them
  std::vector<int> dead(np, -1), state(np, 0);   // state: 0 running, 1 waits for permission, 2 ended
  std::vector<Msg> msg(np);
  std::vector<int> status(np, 0);
  bool contended = false, killed = false, nosec = false;
  std::string problem;
  auto reap = [&](int i) {
    state[i] = 2;
    while (waitpid(pid[i], &status[i], 0) < 0 && errno == EINTR) {}
    close(ask[i]); close(tell[i]);
    ask[i] = tell[i] = -1;
  };
  auto wait_for = [&](int i) {   // until it asks or ends
    struct pollfd pf = {ask[i], POLLIN, 0};
    int r = poll(&pf, 1, 60000);
    if (r <= 0) { problem = "process " + std::to_string(i) + " neither asks nor ends (blocked in the system, or looping)"; kill(pid[i], SIGKILL); reap(i); return; }
    char *b = (char *)&msg[i];
    size_t n = 0;
    while (n < sizeof(Msg)) { ssize_t k = read(ask[i], b + n, sizeof(Msg) - n); if (k <= 0) break; n += k; }
    if (n == sizeof(Msg)) state[i] = 1;
    else {
      reap(i);
      if (WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == 65) nosec = true;
      else if (!(WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == 0))
        problem = "process " + std::to_string(i) + " ended with status " + std::to_string(status[i]) + " in session " + std::to_string(shm->p[i].session - 1);
    }
  };
  for (int i = 0; i < np; ++i) wait_for(i);
  long steps = 0, free_steps = S.range(0, style == 1 ? 400 : 200);
  long fair_limit = 6000;
  int cur = 0, burst = 0;
  int target = style == 2 ? (int)S.draw(np) : -1;
  long hold_at = style == 2 ? S.draw(40) : 0, lock_calls = 0, held = style == 2 ? S.range(1, 60) : 0;
  std::vector<int> waits(np, 0);
  while (problem.empty() && !nosec) {
    std::vector<int> ready;
    for (int i = 0; i < np; ++i) if (state[i] == 1) ready.push_back(i);
    if (ready.empty()) break;
    int who;
    if (style == 2) {
      // one process is stopped for a while right before its hold_at-th call on the lock or file
      bool stop = state[target] == 1 && lock_calls == hold_at && held > 0 && ready.size() > 1;
      std::vector<int> r2;
      for (int i : ready) if (!(stop && i == target)) r2.push_back(i);
      if (stop) --held;
      if (burst <= 0 || std::find(r2.begin(), r2.end(), cur) == r2.end()) { cur = steps < free_steps ? r2[S.draw(r2.size())] : r2[steps % r2.size()]; burst = steps < free_steps ? (int)S.range(1, 12) : 3; }
      who = cur; --burst;
    } else if (steps < free_steps) {
      if (style == 1) {
        if (burst <= 0 || state[cur] != 1) { cur = ready[S.draw(ready.size())]; burst = (int)S.range(1, 25); }
        who = cur; --burst;
      } else who = ready[S.draw(ready.size())];
    } else who = ready[steps % ready.size()];
    if (deaths && steps < free_steps && S.coin(1, 60)) {
      NOTE("step " << steps << ": process " << who << " is killed before " << call_name(msg[who]) << " " << msg[who].path);
      kill(pid[who], SIGKILL);
      reap(who);
      if (shm->p[who].finished < shm->p[who].session) dead[who] = shm->p[who].session - 1;
      else dead[who] = shm->p[who].session;   // between sessions: it never began the next one
      shm->p[who].inside = 0;
      killed = true;
      ++steps;
      continue;
    }
    if (style == 2 && who == target) ++lock_calls;
    if (msg[who].kind == 3) { contended = true; ++waits[who]; }
    NOTE("step " << steps << ": " << who << " " << call_name(msg[who]) << " " << msg[who].path);
    state[who] = 0;
    if (write(tell[who], "g", 1) != 1) {}
    wait_for(who);
    int inside = 0, w1 = -1, w2 = -1;
    for (int i = 0; i < np; ++i) if (shm->p[i].inside && state[i] != 2) { ++inside; w1 = w2; w2 = i; }
    if (inside > 1) { std::ostringstream o; o << "processes " << w1 << " and " << w2 << " have the file at the same time (step " << steps << ")"; problem = o.str(); }
    for (int i = 0; i < np; ++i) if (shm->p[i].bad) problem = "process " + std::to_string(i) + " reading: " + shm->p[i].why;
    if (++steps > free_steps + fair_limit && problem.empty()) {
      std::ostringstream o;
      o << "after " << fair_limit << " fair steps still waiting:";
      for (int i = 0; i < np; ++i) if (state[i] == 1) o << " " << i << " (waited " << waits[i] << " times)";
      problem = o.str();
    }
  }
  for (int i = 0; i < np; ++i) if (state[i] != 2) { kill(pid[i], SIGKILL); reap(i); }
  if (nosec) { label("no system call interception here"); DISCARD(); }
  if (!problem.empty()) FAIL(problem);
  if (contended || killed) nontrivial();
  if (contended) label("lock found taken");
  if (killed) label("a process killed");
  if (readers) label("with readers");
  label(std::to_string(np) + " processes");
  // the file at the end
  std::string b;
  bool any = false;
  std::vector<int> upto(np, 0);
  for (int i = 0; i < np; ++i) { upto[i] = shm->p[i].finished; if (shm->p[i].finished) any = true; if (dead[i] < 0 && shm->p[i].finished != (int)P[i].s.size()) FAIL("process " << i << " ended after " << shm->p[i].finished << " of " << P[i].s.size() << " sessions"); }
  bool there = slurp(file, b);
  if (!there) { if (any || had) FAIL("there is no file"); return; }
  std::string start = had && initial.size() ? initial : header_bytes();
  if (b.empty() && !any && !had) return;
  if (b.compare(0, start.size(), start) != 0) FAIL("the beginning of the file is not as it was");
  Layout L(P, dead);
  L.next.assign(np, 0);
  if (!L.match(b, start.size(), upto)) {
    std::ostringstream o;
    Par q(b, start.size());
    Rec x;
    while (q.p < b.size() && q.rec(x)) o << " " << x.name;
    if (q.p < b.size()) o << " ... " << b.size() - q.p << " bytes not understood";
    std::ostringstream w;
    for (int i = 0; i < np; ++i) w << " process " << i << ": " << upto[i] << (dead[i] >= 0 ? " (killed)" : "");
    FAIL("the file is not a sequence of complete sessions; it holds" << o.str() << "; completed sessions:" << w.str());
  }
}
TEST(random_schedules, 7500, 120000) { go(S, 0); }
TEST(bursts, 7500, 120000) { go(S, 1); }
TEST(preemption, 9000, 150000) { go(S, 2); }
