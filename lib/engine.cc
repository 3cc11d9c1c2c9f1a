#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <algorithm>
#include <exception>
#include <atomic>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ASAN 1
#endif

extern "C" const char *__asan_default_options() {
  // 0xff fill: memory the library forgot to initialise reads as NaN / -1
  return "detect_leaks=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=255:"
         "quarantine_size_mb=8:alloc_dealloc_mismatch=0:abort_on_error=0:handle_abort=0:"
         "allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:"
         "detect_stack_use_after_return=0:symbolize=0:print_legend=0";
}

namespace pbt {

static const size_t MAX_CHOICES = 1 << 17;
static const size_t TRACE_SZ = 1 << 16;
static const size_t MSG_SZ = 8192;
static const int MAXW = 64;
static const int KEEP = 3;

struct Slot {                     // one per worker, shared
  volatile uint64_t case_no;      // running case
  volatile int64_t running;       // 1 while inside a case
  volatile uint64_t chunk_first;  // first case of this process
  volatile uint64_t started;      // monotonic seconds
  volatile uint32_t nchoices;
  volatile int32_t failed;        // 1: Failure recorded
  volatile uint64_t done;         // next case to run
  char msg[MSG_SZ];
  char key[256];
  uint64_t choices[MAX_CHOICES];
  uint32_t ntrace;
  char trace[TRACE_SZ];
};

struct LabelEnt { char name[64]; std::atomic<uint64_t> n; };
static const int NLABEL = 512;
static const size_t HSZ = 1 << 22;
struct Global {
  std::atomic<uint64_t> evals, nontriv_evals, discards, distinct, known_hits;
  std::atomic<uint64_t> kept[KEEP];
  std::atomic<int> nkept;
  std::atomic<int> label_lock;
  LabelEnt labels[NLABEL];
  std::atomic<uint64_t> hash[HSZ];
  std::atomic<int> stop;
};

struct TestEnt { std::string name; long q, t; case_fn f; };
static std::vector<TestEnt> &tests() { static std::vector<TestEnt> v; return v; }
Registrar::Registrar(const char *name, long q, long t, case_fn f) { tests().push_back({name, q, t, f}); }
struct ReproEnt { std::string key; repro_fn f; };
static std::vector<ReproEnt> &repros() { static std::vector<ReproEnt> v; return v; }
KnownRepro::KnownRepro(const char *key, repro_fn f) { repros().push_back({key, f}); }

static Slot *slots;            // [0..W-1] workers, [W] shrink/replay
static Global *G;
static Slot *me;
static Tier g_tier = QUICK;
static uint64_t g_seed = 1;
static std::map<std::string, std::string> g_known;   // key -> text
static std::string g_scratch;

// ---- choice source -------------------------------------------------------
static uint64_t rng_s[4];
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void rng_seed(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15u) * 0xbf58476d1ce4e5b9ull ^ c * 0x94d049bb133111ebull;
  for (int i = 0; i < 4; ++i) rng_s[i] = splitmix(x);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next() {
  const uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
  rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2]; rng_s[0] ^= rng_s[3];
  rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45);
  return r;
}
static const std::vector<uint64_t> *g_replay;   // null: random
static size_t g_pos;
static bool g_nontriv, g_trace;
static std::set<std::string> *g_labels_case;

uint64_t Src::draw(uint64_t n) {
  uint64_t v;
  if (n == 0) n = 1;
  if (g_replay) {
    v = g_pos < g_replay->size() ? (*g_replay)[g_pos] : 0;
    if (v >= n) v %= n;
  } else {
    v = rng_next();
    v = n == 1 ? 0 : (uint64_t)(((unsigned __int128)v * n) >> 64);
  }
  ++g_pos;
  uint32_t k = me->nchoices;
  if (k >= MAX_CHOICES) throw Discard();
  me->choices[k] = v;
  me->nchoices = k + 1;
  return v;
}
uint64_t Src::bits64() {
  uint64_t a = draw(1ull << 32), b = draw(1ull << 32);
  return (a << 32) | b;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
  unsigned tot = 0;
  for (unsigned x : w) tot += x;
  uint64_t v = draw(tot);
  size_t i = 0;
  for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
  return 0;
}
Tier Src::tier() const { return g_tier; }
uint64_t Src::case_index() const { return me->case_no; }

void nontrivial() { g_nontriv = true; }
bool tracing() { return g_trace; }
void note_str(const std::string &s) {
  size_t room = TRACE_SZ - 1 - me->ntrace;
  if (room < 2) return;
  size_t n = std::min(room - 1, s.size());
  memcpy(me->trace + me->ntrace, s.data(), n);
  me->trace[me->ntrace + n] = '\n';
  me->ntrace += n + 1;
  me->trace[me->ntrace] = 0;
}
void label(const std::string &s) { if (g_labels_case) g_labels_case->insert(s); }
static void commit_label(const std::string &s) {
  for (int i = 0; i < NLABEL; ++i) {
    if (G->labels[i].name[0] == 0) {
      int exp = 0;
      while (!G->label_lock.compare_exchange_weak(exp, 1)) exp = 0;
      if (G->labels[i].name[0] == 0) strncpy(G->labels[i].name, s.c_str(), 63);
      G->label_lock = 0;
    }
    if (!strncmp(G->labels[i].name, s.c_str(), 63)) { G->labels[i].n++; return; }
  }
}
void fail_str(const std::string &msg, const std::string &key) { throw Failure{msg, key}; }
bool is_known(const std::string &key) { return g_known.count(key); }

size_t allocated_bytes() {
#ifdef HAVE_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

static double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// ---- scratch directories --------------------------------------------------
static std::string g_scratch_root;
std::string scratch_dir() {
  if (g_scratch.empty()) {
    char b[64]; snprintf(b, sizeof b, "/w%d", (int)getpid());
    g_scratch = g_scratch_root + b;
    mkdir(g_scratch.c_str(), 0777);
  }
  return g_scratch;
}
static void rm_tree(const std::string &d, int depth = 0) {
  if (depth > 6 || d.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
  DIR *dp = opendir(d.c_str());
  if (dp) {
    while (dirent *e = readdir(dp)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0777); rm_tree(p, depth + 1); }
      else unlink(p.c_str());
    }
    closedir(dp);
  }
  rmdir(d.c_str());
}

// ---- probes ---------------------------------------------------------------
static std::string brief(const std::string &e);
const char *outcome_name(Outcome o) {
  static const char *n[] = {"returned normally", "was refused", "crashed (memory error or signal)", "hung"};
  return n[o];
}
static Outcome classify(int status, const std::string &err) {
  if (WIFEXITED(status)) {
    int c = WEXITSTATUS(status);
    if (c == 0) return RETURNED;
    if (c == 99) {
      if (err.find("allocation-size-too-big") != std::string::npos ||
          err.find("out-of-memory") != std::string::npos ||
          err.find("out of memory") != std::string::npos ||
          err.find("exceeds maximum supported size") != std::string::npos ||
          err.find("hard rss limit") != std::string::npos)
        return REFUSED;
      return CRASHED;
    }
    return REFUSED;
  }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT) {
    if (err.find("AddressSanitizer") != std::string::npos) return CRASHED;
    return REFUSED;
  }
  return CRASHED;
}
Outcome probe(const std::function<void()> &f, std::string *tail, int timeout_s) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(0);
  pid_t p = fork();
  if (p < 0) abort();
  if (p == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(fd[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    try { f(); } catch (Failure &e) {
      (void)!write(2, "PBTFAIL:", 8);
      (void)!write(2, e.msg.c_str(), e.msg.size());
      _exit(98);
    } catch (...) { _exit(3); }
    _exit(0);
  }
  close(fd[1]);
  std::string err;
  char buf[4096];
  double end = now() + timeout_s;
  bool hung = false;
  for (;;) {
    pollfd pf = {fd[0], POLLIN, 0};
    int left = (int)((end - now()) * 1000);
    if (left <= 0) { hung = true; break; }
    int r = poll(&pf, 1, left);
    if (r < 0 && errno == EINTR) continue;
    if (r == 0) { hung = true; break; }
    ssize_t k = read(fd[0], buf, sizeof buf);
    if (k <= 0) break;
    if (err.size() < 65536) err.append(buf, k);
  }
  close(fd[0]);
  if (hung) kill(p, SIGKILL);
  int status = 0;
  while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
  if (tail) *tail = err.substr(0, 3000);
  if (hung) return HUNG;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 98) {
    size_t k = err.find("PBTFAIL:");
    throw Failure{k == std::string::npos ? err : err.substr(k + 8), ""};
  }
  return classify(status, err);
}
void must_refuse(const std::string &what, const std::function<void()> &f) {
  std::string tail;
  Outcome o = probe(f, &tail);
  if (o != REFUSED) FAIL(what << ": should have been refused, but " << outcome_name(o) << (o == CRASHED ? "\n" + brief(tail) : std::string()));
}
Outcome must_not_crash(const std::string &what, const std::function<void()> &f) {
  std::string tail;
  Outcome o = probe(f, &tail);
  if (o == CRASHED || o == HUNG) FAIL(what << ": " << outcome_name(o) << "\n" << brief(tail));
  return o;
}

// Does memory grow each time the same case is run again?
__attribute__((weak)) bool NO_LEAK_CHECK = false;
static bool grows(const TestEnt &t, uint64_t th, uint64_t no, const std::vector<uint64_t> *replay, std::string *msg) {
  if (NO_LEAK_CHECK || !allocated_bytes()) return false;
  bool tr = g_trace;
  std::set<std::string> *lc = g_labels_case;
  std::set<std::string> dummy;
  g_trace = false;
  g_labels_case = &dummy;
  size_t b[5];
  bool ok = false;
  for (int i = 0; i < 5; ++i) {
    me->nchoices = 0;
    g_pos = 0;
    g_replay = replay;
    if (!replay) rng_seed(g_seed, th, no);
    me->started = (uint64_t)now();
    try { Src S; t.f(S); } catch (Failure &) { ok = true; } catch (Discard &) { ok = true; }
    if (ok) break;
    b[i] = allocated_bytes();
    if (i && b[i] <= b[i - 1]) { ok = true; break; }
  }
  g_trace = tr;
  g_labels_case = lc;
  if (ok) return false;
  std::ostringstream o;
  o << "memory is lost: the bytes in use grow by " << b[1] - b[0] << ", " << b[2] - b[1] << ", " << b[3] - b[2] << ", " << b[4] - b[3] << " each time the same case is run again";
  *msg = o.str();
  return true;
}

// ---- running one case -----------------------------------------------------
// 0 ok, 1 failure (message in slot), 2 discarded
static int run_case(const TestEnt &t, uint64_t no, const std::vector<uint64_t> *replay, bool count) {
  me->case_no = no;
  me->nchoices = 0;
  me->failed = 0;
  me->msg[0] = 0; me->key[0] = 0;
  me->ntrace = 0; me->trace[0] = 0;
  g_replay = replay;
  g_pos = 0;
  g_nontriv = false;
  uint64_t th = 1469598103934665603ull;
  for (char c : t.name) th = (th ^ (unsigned char)c) * 1099511628211ull;
  if (!replay) rng_seed(g_seed, th, no);
  std::set<std::string> labels;
  g_labels_case = &labels;
  me->started = (uint64_t)now();
  me->running = 1;
  Src S;
  int rc = 0;
  try {
    t.f(S);
    std::string m;
    if ((replay || no % 61 == 7) && grows(t, th, no, replay, &m)) throw Failure{m, ""};
  } catch (Failure &f) {
    if (!f.key.empty() && is_known(f.key)) { G->known_hits++; }
    else {
      strncpy(me->msg, f.msg.c_str(), MSG_SZ - 1);
      strncpy(me->key, f.key.c_str(), 255);
      me->failed = 1;
      rc = 1;
    }
  } catch (Discard &) { rc = 2; }
  catch (std::exception &e) {
    snprintf(me->msg, MSG_SZ, "unexpected C++ exception: %s", e.what());
    me->failed = 1;
    rc = 1;
  }
  me->running = 0;
  g_labels_case = 0;
  if (count && rc != 1) {
    if (rc == 2) G->discards++;
    else {
      G->evals++;
      if (g_nontriv) {
        G->nontriv_evals++;
        uint64_t h = th;
        for (uint32_t i = 0; i < me->nchoices; ++i) { h ^= me->choices[i] + 0x9e3779b97f4a7c15ull; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
        if (!h) h = 1;
        size_t k = h & (HSZ - 1);
        for (int tries = 0; tries < 64; ++tries, k = (k + 1) & (HSZ - 1)) {
          uint64_t exp = 0;
          if (G->hash[k].compare_exchange_strong(exp, h)) { G->distinct++; break; }
          if (exp == h) break;
        }
        int nk = G->nkept;
        if (nk < KEEP) { nk = G->nkept++; if (nk < KEEP) G->kept[nk] = no; }
      }
      for (auto &s : labels) commit_label(s);
    }
  }
  return rc;
}

static std::string brief(const std::string &e) {   // drop stack addresses
  std::istringstream is(e);
  std::string o;
  for (std::string l; std::getline(is, l) && o.size() < 900;)
    if (l.compare(0, 5, "    #") && l.compare(0, 4, "====") && !l.empty()) o += l + "\n";
  return o;
}
struct Item { bool by_seed; uint64_t no; std::vector<uint64_t> ch; };
typedef std::vector<Item> Replay;

struct Attempt { bool failed; bool discarded; std::string msg, err, trace; std::vector<uint64_t> ch; };

// run the items in order in a fresh process, on the extra slot
static Attempt attempt(const TestEnt &t, const Replay &r, int W, bool trace, int timeout_s = 40) {
  Slot *sl = &slots[W];
  Attempt a = {false, false, "", "", "", {}};
  int fd[2];
  if (pipe(fd)) abort();
  sl->failed = 0; sl->msg[0] = 0; sl->trace[0] = 0; sl->nchoices = 0; sl->running = 0;
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    me = sl;
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fd[0]);
    dup2(fd[1], 2);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(fd[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_scratch.clear();
    int rc = 0;
    for (size_t i = 0; i < r.size(); ++i) {
      g_trace = trace && i + 1 == r.size();
      rc = run_case(t, r[i].no, r[i].by_seed ? 0 : &r[i].ch, false);
      if (rc == 1) break;
    }
    fflush(0);
    _exit(rc == 1 ? 97 : rc == 2 ? 96 : 0);
  }
  close(fd[1]);
  char buf[4096];
  double end = now() + timeout_s;
  bool hung = false;
  for (;;) {
    pollfd pf = {fd[0], POLLIN, 0};
    int left = (int)((end - now()) * 1000);
    if (left <= 0) { hung = true; break; }
    int r2 = poll(&pf, 1, left);
    if (r2 < 0 && errno == EINTR) continue;
    if (r2 == 0) { hung = true; break; }
    ssize_t k = read(fd[0], buf, sizeof buf);
    if (k <= 0) break;
    if (a.err.size() < 65536) a.err.append(buf, k);
  }
  close(fd[0]);
  if (hung) kill(-p, SIGKILL);
  int status = 0;
  while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
  rm_tree(g_scratch_root + "/w" + std::to_string((int)p));
  a.trace = sl->trace;
  a.ch.assign(sl->choices, sl->choices + sl->nchoices);
  if (hung) { a.failed = true; a.msg = "the operation did not finish (hang)"; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {}
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 96) { a.discarded = true; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 97) { a.failed = true; a.msg = sl->msg; }
  else {
    a.failed = true;
    std::ostringstream o;
    if (WIFSIGNALED(status)) o << "the process died with signal " << WTERMSIG(status) << " inside a call that must succeed";
    else if (WEXITSTATUS(status) == 99) o << "memory error (AddressSanitizer) inside a call that must succeed";
    else o << "the process exited with status " << WEXITSTATUS(status) << " inside a call that must succeed";
    o << "\n" << brief(a.err);
    a.msg = o.str();
  }
  return a;
}

// ---- shrinking --------------------------------------------------------------
static std::vector<uint64_t> shrink(const TestEnt &t, Replay rep, int W, double budget, int &tries) {
  double end = now() + budget;
  std::vector<uint64_t> best = rep.back().ch;
  tries = 0;
  auto ok = [&](std::vector<uint64_t> c) {
    if (now() > end) return false;
    ++tries;
    rep.back().ch = c; rep.back().by_seed = false;
    Attempt a = attempt(t, rep, W, false, 25);
    if (!a.failed) return false;
    // use the canonical (consumed) sequence if it is no worse
    std::vector<uint64_t> d = a.ch;
    if (d.size() > c.size()) d = c;
    if (d.size() < best.size() || (d.size() == best.size() && d < best)) { best = d; return true; }
    if (c.size() < best.size() || (c.size() == best.size() && c < best)) { best = c; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // truncate
    for (size_t n = 0; n < best.size() && now() < end;) {
      std::vector<uint64_t> c(best.begin(), best.begin() + n);
      if (ok(c)) { progress = true; break; }
      n = n ? n * 2 : 1;
    }
    // delete blocks
    for (size_t len = best.size() / 2; len >= 1 && now() < end; len = len > 8 ? len / 2 : len - 1) {
      for (size_t i = 0; i + len <= best.size() && now() < end;) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + len);
        if (ok(c)) progress = true; else i += (len > 4 ? len / 2 : 1);
      }
    }
    // zero blocks
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
        std::vector<uint64_t> c(best);
        bool any = false;
        for (size_t j = i; j < i + len; ++j) { any |= c[j] != 0; c[j] = 0; }
        if (any && ok(c)) progress = true;
      }
    }
    // lower single values
    for (size_t i = 0; i < best.size() && now() < end; ++i) {
      uint64_t hi = best[i], lo = 0;
      while (hi > lo && now() < end && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c(best);
        c[i] = mid;
        if (ok(c)) { progress = true; if (i < best.size()) hi = std::min(mid, best[i]); else break; }
        else lo = mid + 1;
        if (lo >= hi) break;
      }
    }
  }
  return best;
}

// ---- replay files -----------------------------------------------------------
static void write_replay(const std::string &path, const TestEnt &t, const Replay &r, const std::string &msg, const std::string &trace) {
  std::ofstream o(path);
  o << "# property " << PROPERTY << "\n";
  std::istringstream is(msg);
  for (std::string l; std::getline(is, l);) o << "# " << l << "\n";
  std::istringstream it(trace);
  for (std::string l; std::getline(it, l);) o << "#   " << l << "\n";
  o << "seed " << g_seed << "\ntier " << (g_tier == QUICK ? "quick" : "thorough") << "\ntest " << t.name << "\n";
  for (auto &i : r) {
    if (i.by_seed) o << "seedcase " << i.no << "\n";
    else { o << "choices " << i.no; for (auto c : i.ch) o << ' ' << c; o << "\n"; }
  }
}
static bool read_replay(const std::string &path, std::string &test, Replay &r, uint64_t &seed) {
  std::ifstream f(path);
  if (!f) return false;
  for (std::string l; std::getline(f, l);) {
    std::istringstream is(l);
    std::string k;
    if (!(is >> k) || k[0] == '#') continue;
    if (k == "test") is >> test;
    else if (k == "seed") is >> seed;
    else if (k == "tier") { std::string x; is >> x; g_tier = x == "quick" ? QUICK : THOROUGH; }
    else if (k == "seedcase") { Item it; it.by_seed = true; is >> it.no; r.push_back(it); }
    else if (k == "choices") { Item it; it.by_seed = false; is >> it.no; for (uint64_t v; is >> v;) it.ch.push_back(v); r.push_back(it); }
  }
  return !r.empty();
}

static std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Violation { std::string test, msg, path; };

}  // namespace pbt

using namespace pbt;

static const TestEnt *find_test(const std::string &n) {
  for (auto &t : tests()) if (t.name == n) return &t;
  return 0;
}

int main(int argc, char **argv) {
  std::string out, replay_dir = "/tmp", known_file, replay_file, corpus, only;
  double cap = 0, scale = 1;
  int W = (int)sysconf(_SC_NPROCESSORS_ONLN);
  bool tier_set = false;
  if (getenv("VERIF_SEED")) g_seed = strtoull(getenv("VERIF_SEED"), 0, 10);
  if (getenv("VERIF_TIER")) g_tier = !strcmp(getenv("VERIF_TIER"), "thorough") ? THOROUGH : QUICK;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--evidence") out = nxt();
    else if (a == "--replay-dir") replay_dir = nxt();
    else if (a == "--known") known_file = nxt();
    else if (a == "--replay") replay_file = nxt();
    else if (a == "--corpus") corpus = nxt();
    else if (a == "--seed") g_seed = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--tier") { g_tier = nxt() == "thorough" ? THOROUGH : QUICK; tier_set = true; }
    else if (a == "--only") only = nxt();
    else if (a == "--cap") cap = atof(nxt().c_str());
    else if (a == "--scale") scale = atof(nxt().c_str());
    else if (a == "--workers") W = atoi(nxt().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  (void)tier_set;
  if (W < 1) W = 1;
  if (W > MAXW) W = MAXW;
  if (cap <= 0) cap = g_tier == QUICK ? 150 : 700;
  double t0 = now();
  signal(SIGPIPE, SIG_IGN);
  {
    char b[] = "/tmp/pbt-XXXXXX";
    if (!mkdtemp(b)) { perror("mkdtemp"); return 2; }
    g_scratch_root = b;
    chmod(b, 0777);
  }
  slots = (Slot *)mmap(0, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G = (Global *)mmap(0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  me = &slots[W];

  // known findings: "KNOWN: property=C05 key=foo text..."
  {
    std::ifstream f(known_file);
    for (std::string l; std::getline(f, l);) {
      if (l.compare(0, 6, "KNOWN:")) continue;
      size_t p = l.find("property="), k = l.find("key=");
      if (p == std::string::npos || k == std::string::npos) continue;
      std::istringstream a(l.substr(p + 9)), b(l.substr(k + 4));
      std::string prop, key, rest;
      a >> prop; b >> key; std::getline(b, rest);
      if (prop == PROPERTY) g_known[key] = rest;
    }
  }

  int exit_code = 0;
  std::vector<Violation> viol;
  std::vector<std::string> known_seen, unrepro;

  if (!replay_file.empty()) {
    std::string tn; Replay r; uint64_t seed = g_seed;
    if (!read_replay(replay_file, tn, r, seed) || !find_test(tn)) { fprintf(stderr, "cannot read replay file\n"); rm_tree(g_scratch_root); return 2; }
    g_seed = seed;
    Attempt a = attempt(*find_test(tn), r, W, true);
    std::cout << a.trace << "\n" << (a.failed ? "FAILED: " + a.msg : std::string("passed")) << "\n";
    if (a.failed) std::cout << "VIOLATION property=" << PROPERTY << " replay=" << replay_file << "\n";
    rm_tree(g_scratch_root);
    return a.failed ? 1 : 0;
  }

  auto report = [&](const TestEnt &t, const Replay &rep, const Attempt &a) {
    char b[256];
    mkdir(replay_dir.c_str(), 0777);
    snprintf(b, sizeof b, "%s/%s-%s-seed%llu.replay", replay_dir.c_str(), PROPERTY, t.name.c_str(), (unsigned long long)g_seed);
    write_replay(b, t, rep, a.msg, a.trace);
    std::cout << "--- " << PROPERTY << "/" << t.name << ": " << a.msg << "\n" << a.trace;
    std::cout << "VIOLATION property=" << PROPERTY << " replay=" << b << std::endl;
    viol.push_back({t.name, a.msg, b});
    exit_code = 1;
  };

  // 1. direct reproductions of listed known findings
  for (auto &r : repros()) {
    if (!is_known(r.key)) continue;
    bool still = false;
    try { Outcome o = probe(r.f, 0, 40); still = o != RETURNED; } catch (Failure &) { still = true; }
    if (still) {
      std::cout << "KNOWN-FINDING: property=" << PROPERTY << " " << r.key << g_known[r.key] << std::endl;
      known_seen.push_back(r.key);
    }
  }

  // 2. committed regression corpus
  long corpus_n = 0;
  if (!corpus.empty()) {
    std::vector<std::string> files;
    if (DIR *d = opendir(corpus.c_str())) {
      while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 7 && n.substr(n.size() - 7) == ".replay") files.push_back(corpus + "/" + n);
      }
      closedir(d);
    }
    std::sort(files.begin(), files.end());
    for (auto &f : files) {
      std::string tn; Replay r; uint64_t seed = g_seed; Tier keep = g_tier;
      uint64_t ks = g_seed;
      if (!read_replay(f, tn, r, seed) || !find_test(tn)) { g_tier = keep; continue; }
      g_seed = seed;
      ++corpus_n;
      Attempt a = attempt(*find_test(tn), r, W, true);
      if (a.failed && attempt(*find_test(tn), r, W, false).failed && attempt(*find_test(tn), r, W, false).failed)
        report(*find_test(tn), r, a);
      g_tier = keep;
      g_seed = ks;
    }
  }

  // 3. generated cases
  struct PerTest { std::string name; uint64_t evals, nontriv, distinct, discards; double secs; bool capped; };
  std::vector<PerTest> per;
  std::vector<std::string> samples;
  bool any_cap = false;
  double total_w = 0, used_w = 0;
  for (auto &t : tests()) total_w += (g_tier == QUICK ? t.q : t.t) > 0;
  double deadline = t0 + cap;
  for (auto &t : tests()) {
    if (!only.empty() && t.name != only) continue;
    if (exit_code && now() > deadline) break;
    long N = g_tier == QUICK ? t.q : t.t;
    N = (long)(N * scale);
    if (N <= 0) continue;
    double test_start = now();
    // each test may use its share of what is left, and no less than a minimum
    used_w += 1;
    double share = (deadline - now()) / std::max(1.0, total_w - used_w + 1);
    double test_end = now() + std::max(share * 2.0, 5.0);
    if (test_end > deadline) test_end = deadline;
    uint64_t e0 = G->evals, n0 = G->nontriv_evals, d0 = G->distinct, x0 = G->discards;
    G->nkept = 0;
    G->stop = 0;
    bool capped = false;
    const long CHUNK = 256;   // cases per process (before re-forking)
    std::vector<pid_t> pid(W, 0);
    std::vector<int> errfd(W, -1);
    for (int w = 0; w < W; ++w) slots[w].done = w;
    int flaky = 0;
    bool fatal = false;
    int bad_w = -1;
    Attempt first;
    auto spawn = [&](int w) {
      slots[w].failed = 0;
      slots[w].running = 0;
      slots[w].started = (uint64_t)now();
      std::string ef = g_scratch_root + "/err" + std::to_string(w);
      fflush(0);
      pid_t p = fork();
      if (p == 0) {
        me = &slots[w];
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        dup2(fd, 2);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        g_scratch.clear();
        me->chunk_first = me->done;
        long k = 0;
        for (uint64_t no = me->done; (long)no < N && k < CHUNK; no += W, ++k) {
          if (G->stop) break;
          int rc = run_case(t, no, 0, true);
          me->done = no + W;
          if (rc == 1) _exit(97);
        }
        _exit(0);
      }
      pid[w] = p;
    };
    for (int w = 0; w < W; ++w) if ((long)slots[w].done < N) spawn(w);
    int live = 0;
    for (int w = 0; w < W; ++w) live += pid[w] > 0;
    while (live > 0) {
      int status;
      pid_t p = waitpid(-1, &status, WNOHANG);
      if (p <= 0) {
        if (now() > test_end && !G->stop) { G->stop = 1; capped = true; }
        for (int w = 0; w < W; ++w)
          if (pid[w] > 0 && slots[w].running && now() - (double)slots[w].started > 60) kill(-pid[w], SIGKILL);
        usleep(1000);
        continue;
      }
      int w = -1;
      for (int k = 0; k < W; ++k) if (pid[k] == p) w = k;
      if (w < 0) continue;
      pid[w] = 0;
      --live;
      rm_tree(g_scratch_root + "/w" + std::to_string((int)p));
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        if (!G->stop && (long)slots[w].done < N) { spawn(w); ++live; }
        continue;
      }
      if (fatal) continue;
      // a failing case
      uint64_t no = slots[w].case_no;
      std::vector<uint64_t> ch(slots[w].choices, slots[w].choices + slots[w].nchoices);
      std::string wmsg = slots[w].failed ? std::string(slots[w].msg) : std::string("process death");
      Replay rep = {Item{false, no, ch}};
      int hits = 0;
      for (int k = 0; k < 3; ++k) {
        first = attempt(t, rep, W, true);
        hits += first.failed;
        if (!first.failed && k == 0) break;
      }
      if (hits < 3) {
        // depends on what ran before in the same process?
        Replay hist;
        for (uint64_t c = slots[w].chunk_first; c <= no; c += W) hist.push_back(Item{true, c, {}});
        int h2 = 0;
        for (int k = 0; k < 3; ++k) { Attempt a = attempt(t, hist, W, true, 120); h2 += a.failed; if (a.failed) first = a; if (!a.failed && k == 0) break; }
        if (h2 == 3) {
          // drop earlier cases
          size_t keep = 1;
          while (keep < hist.size()) {
            Replay h(hist.end() - keep, hist.end());
            if (attempt(t, h, W, false, 120).failed) { hist = h; break; }
            keep *= 2;
          }
          for (size_t i = 0; i + 1 < hist.size() && hist.size() > 1;) {
            Replay h = hist; h.erase(h.begin() + i);
            if (hist.size() <= 40 && attempt(t, h, W, false, 60).failed) hist = h; else ++i;
          }
          rep = hist;
          hits = 3;
        }
      }
      if (hits < 3) {
        unrepro.push_back(t.name + " case " + std::to_string(no) + ": " + wmsg.substr(0, 300));
        std::cout << "note: " << PROPERTY << "/" << t.name << " case " << no << " failed once but " << hits << "/3 replays: " << wmsg.substr(0, 300) << std::endl;
        slots[w].done = no + W;
        if (++flaky < 20 && (long)slots[w].done < N) { spawn(w); ++live; }
        continue;
      }
      fatal = true;
      G->stop = 1;
      for (int k = 0; k < W; ++k) if (pid[k] > 0) kill(-pid[k], SIGKILL);
      // shrink the last case (others, if any, are its context)
      int tries = 0;
      if (rep.back().by_seed) {
        Attempt a = attempt(t, rep, W, false, 120);
        rep.back().ch = a.ch; rep.back().by_seed = false;
      }
      Replay keep = rep;
      std::vector<uint64_t> best = shrink(t, rep, W, g_tier == QUICK ? 25 : 60, tries);
      rep.back().ch = best;
      Attempt a = attempt(t, rep, W, true);
      if (!a.failed) { rep = keep; a = attempt(t, rep, W, true); if (!a.failed) a = first; }
      std::ostringstream o;
      o << a.msg << "\n(case " << no << ", shrunk from " << ch.size() << " to " << rep.back().ch.size() << " choices in " << tries << " attempts)";
      a.msg = o.str();
      report(t, rep, a);
    }
    any_cap |= capped;
    per.push_back({t.name, G->evals - e0, G->nontriv_evals - n0, G->distinct - d0, G->discards - x0, now() - test_start, capped});
    // samples: write out one kept case of this test
    int nk = G->nkept; if (nk > KEEP) nk = KEEP;
    if (!exit_code) for (int k = 0; k < std::min(nk, samples.size() < 4 ? 2 : 1); ++k) {
      Attempt a = attempt(t, {Item{true, G->kept[k], {}}}, W, true);
      std::string tr = a.trace;
      if (tr.size() > 1200) tr = tr.substr(0, 1200) + " ...";
      samples.push_back(t.name + " #" + std::to_string((unsigned long)G->kept[k]) + ": " + tr);
    }
  }
  double wall = now() - t0;

  if (!out.empty()) {
    std::ofstream o(out);
    o << "{\n \"property\": \"" << PROPERTY << "\",\n \"tier\": \"" << (g_tier == QUICK ? "quick" : "thorough") << "\",\n \"seed\": " << g_seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << G->evals << ",\n  \"distinct_nontrivial\": " << G->distinct
      << ",\n  \"rule\": " << json(RULE) << ",\n  \"nontrivial_evaluations\": " << G->nontriv_evals << ",\n  \"discarded_cases\": " << G->discards
      << ",\n  \"regression_corpus_cases\": " << corpus_n << ",\n  \"stopped_by_time_cap\": " << (any_cap ? "true" : "false") << ",\n  \"known_finding_hits\": " << G->known_hits
      << ",\n  \"tests\": {";
    for (size_t i = 0; i < per.size(); ++i)
      o << (i ? "," : "") << "\n   " << json(per[i].name) << ": {\"evaluations\": " << per[i].evals << ", \"nontrivial\": " << per[i].nontriv << ", \"distinct_nontrivial\": " << per[i].distinct
        << ", \"discarded\": " << per[i].discards << ", \"seconds\": " << per[i].secs << ", \"capped\": " << (per[i].capped ? "true" : "false") << "}";
    o << "\n  },\n  \"distribution\": {";
    std::map<std::string, uint64_t> lm;
    for (int i = 0; i < NLABEL && G->labels[i].name[0]; ++i) lm[G->labels[i].name] = G->labels[i].n;
    bool f = true;
    for (auto &kv : lm) { o << (f ? "" : ",") << "\n   " << json(kv.first) << ": " << kv.second; f = false; }
    o << "\n  },\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\n   " << json(samples[i]);
    o << "\n  ],\n  \"unreproduced\": [";
    for (size_t i = 0; i < unrepro.size(); ++i) o << (i ? "," : "") << "\n   " << json(unrepro[i]);
    o << "\n  ],\n  \"known_findings\": [";
    for (size_t i = 0; i < known_seen.size(); ++i) o << (i ? "," : "") << json(known_seen[i]);
    o << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < ASSUMPTIONS.size(); ++i) o << (i ? "," : "") << "\n  " << json(ASSUMPTIONS[i]);
    o << "\n ],\n \"violations\": " << viol.size() << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  for (auto &p : per)
    printf("%s %-24s %8llu cases %8llu distinct non-trivial %6llu discarded %6.1fs%s\n", PROPERTY, p.name.c_str(), (unsigned long long)p.evals,
           (unsigned long long)p.distinct, (unsigned long long)p.discards, p.secs, p.capped ? " (time cap)" : "");
  printf("%s: %llu cases, %llu distinct non-trivial, %zu violation(s), %.1fs\n", PROPERTY, (unsigned long long)G->evals.load(), (unsigned long long)G->distinct.load(), viol.size(), wall);
  fflush(stdout);
  rm_tree(g_scratch_root);
  return exit_code;
}
