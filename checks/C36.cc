#include "gen.h"
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <unistd.h>
#include <tensor/linalg.h>
#include <tensor/tools.h>
using namespace tensor;
const char *pbt::PROPERTY = "C36";
const char *pbt::RULE =
    "Random histories of up to 60 tic(), toc(), toc(earlier tic()) and passages of time (nothing, microseconds, up to years, with the processor time advancing differently) under a clock that belongs to the check, compared with the time that went by; "
    "the same on the real clock, between two readings of it; "
    "processes that install the abort handler and end in one of many ways (abort, a signal, a failed assertion, a refused operation of the library, or without a failure, at any depth of calls), with or without text printed before. "
    "Non-trivial: time has passed between tic and toc, or the process aborts with the handler installed.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"times are exact to the microsecond and to the resolution of a double that counts the seconds since 1970",
                                                   "the system clock is not set back while a time is taken"};

// A clock of our own, in force only while a function of the library runs.
namespace {
bool fake;
long asked;
int64_t wall_us, cpu_us;                  // microseconds since 1970, processor time
const int64_t BOOT = 1600000000000000LL;  // when the monotonic clocks were 0
struct Faked {
  Faked() { asked = 0; fake = true; }
  ~Faked() { fake = false; }
};
int64_t clock_us(clockid_t c) {
  switch (c) {
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: return cpu_us;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: return wall_us - BOOT;
    default: return wall_us;
  }
}
}
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (!fake) return (int)syscall(SYS_clock_gettime, c, t);
  ++asked;
  int64_t u = clock_us(c);
  t->tv_sec = u / 1000000;
  t->tv_nsec = (u % 1000000) * 1000;
  return 0;
}
extern "C" int gettimeofday(struct timeval *t, void *z) noexcept {
  if (!fake) return (int)syscall(SYS_gettimeofday, t, z);
  ++asked;
  t->tv_sec = wall_us / 1000000;
  t->tv_usec = wall_us % 1000000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept {
  time_t r;
  if (!fake) r = (time_t)syscall(SYS_time, 0);
  else { ++asked; r = (time_t)(wall_us / 1000000); }
  if (t) *t = r;
  return r;
}
extern "C" clock_t clock() noexcept {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return (clock_t)t.tv_sec * CLOCKS_PER_SEC + t.tv_nsec / 1000;
}
static double real_now() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static const double EPS = 3e-6;

TEST(histories, 200000, 1200000) {
  wall_us = 1700000000000000LL + (int64_t)S.draw(1000000000) * 1000 + (int64_t)S.draw(1000000);
  cpu_us = (int64_t)S.draw(100000000);
  struct Mark { double t; int64_t us; };
  std::vector<Mark> marks;
  int64_t last = 0;
  bool any = false, passed = false;
  auto begin = [&] {
    double t;
    { Faked f; t = tic(); }
    if (!asked) DISCARD();   // another source of time: only the real clock can tell
    last = wall_us;
    any = true;
    marks.push_back({t, last});
  };
  begin();
  for (long n = S.range(1, 60), k = 0; k < n; ++k) {
    int o = (int)S.weighted({4, 1, 3, 2});
    if (o == 0) {
      static const int64_t most[] = {1, 10, 1000, 1000000, 60000000, 86400000000LL, 40000000000000LL};
      int64_t d = (int64_t)S.draw((uint64_t)S.elem(most) + 1), c = S.coin(1, 3) ? 0 : S.coin() ? d : (int64_t)S.draw((uint64_t)d * 4 + 1);
      NOTE("step " << k << ": " << d << " microseconds pass, of processor time " << c);
      wall_us += d;
      cpu_us += c;
    } else if (o == 1) {
      begin();
      NOTE("step " << k << ": tic() = " << marks.back().t);
    } else {
      size_t m = o == 3 ? S.draw(marks.size()) : 0;
      int64_t since = o == 3 ? marks[m].us : last;
      double e, want = (double)(wall_us - since) * 1e-6;
      { Faked f; e = o == 3 ? toc(marks[m].t) : toc(); }
      NOTE("step " << k << ": toc" << (o == 3 ? "(earlier)" : "()") << " = " << e << ", passed " << want);
      if (want > 0) passed = true;
      CHECK(std::abs(e - want) <= EPS, (o == 3 ? "toc(when)" : "toc()") << " gives " << e << " seconds when " << want << " have passed");
    }
  }
  if (any && passed) nontrivial();
}
TEST(real_clock, 600, 3000) {
  std::vector<std::pair<double, double> > lo_hi;   // when each tic happened, by the real clock
  std::vector<double> marks;
  nontrivial();
  auto begin = [&] {
    double a = real_now(), t = tic(), b = real_now();
    if (b < a) DISCARD();
    marks.push_back(t);
    lo_hi.push_back({a, b});
  };
  begin();
  for (long n = S.range(1, 6), k = 0; k < n; ++k) {
    int o = (int)S.weighted({2, 1, 3, 2});
    if (o == 0) usleep((unsigned)S.draw(S.coin() ? 50 : 4000));
    else if (o == 1) begin();
    else {
      size_t m = o == 3 ? S.draw(marks.size()) : marks.size() - 1;
      double a = real_now(), e = o == 3 ? toc(marks[m]) : toc(), b = real_now();
      if (b < a) DISCARD();
      double least = a - lo_hi[m].second, most = b - lo_hi[m].first;
      NOTE("toc gives " << e << ", between " << least << " and " << most);
      CHECK(e >= least - EPS && e <= most + EPS, "toc gives " << e << " seconds, of which at least " << least << " and at most " << most << " have passed");
    }
  }
}
static __attribute__((noinline)) void deep(long n, const std::function<void()> &f) {
  volatile char pad[64];
  pad[n & 63] = 1;
  if (n > 0) deep(n - 1, f); else f();
  pad[0] = 2;
}
TEST(abort_handler, 2500, 12000) {
  static const char *ways[] = {"abort()", "raise(SIGABRT)", "kill(SIGABRT)", "a failed assertion", "a bad index", "an incompatible product", "a singular system", "an uncaught exception", "a normal end", "an ordinary exit"};
  size_t w = S.draw(10), installs = 1 + S.draw(3);
  long depth = S.coin(1, 3) ? S.range(0, 2000) : S.range(0, 20);
  int code = (int)S.range(1, 100);
  bool text = S.coin(), blocked_err = S.coin(1, 8);
  bool failing = w < 8;
  std::string dir = pbt::scratch_dir(), out = dir + "/out", err = dir + "/err";
  NOTE("the process ends by " << ways[w] << " at depth " << depth << ", handler installed " << installs << " times" << (blocked_err ? ", standard error closed" : ""));
  label(ways[w]);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) DISCARD();
  if (!p) {
    int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(o, 1);
    if (blocked_err) close(2); else dup2(e, 2);
    signal(SIGABRT, SIG_DFL);
    alarm(60);
    for (size_t i = 0; i < installs; ++i) tensor_abort_handler();
    if (text) { printf("text printed before\n"); fflush(stdout); }
    deep(depth, [&] {
      volatile int two = 2;
      switch (w) {
        case 0: abort();
        case 1: raise(SIGABRT); break;
        case 2: kill(getpid(), SIGABRT); pause(); break;
        case 3: assert(two == 3); break;
        case 4: { RTensor t = RTensor::zeros(3, 3); volatile double x = t(two + 5, 1); (void)x; break; }
        case 5: { RTensor a = RTensor::zeros(3, 3), b = RTensor::zeros(two, 3); RTensor c = mmult(a, b); break; }
        case 6: { RTensor a = RTensor::zeros(2, 2), b = RTensor::ones(igen << 2); RTensor c = linalg::solve(a, b); break; }
        case 7: { struct N { void f() noexcept { throw 1; } } v; v.f(); break; }
        case 8: break;
        case 9: _exit(code);
      }
    });
    _exit(0);
  }
  int s = 0;
  if (waitpid(p, &s, 0) != p) FAIL("waitpid");
  auto slurp = [](const std::string &f) { std::string r; char b[4096]; int d = open(f.c_str(), O_RDONLY); for (ssize_t n; d >= 0 && (n = read(d, b, sizeof b)) > 0;) r.append(b, (size_t)n); if (d >= 0) close(d); return r; };
  std::string o = slurp(out), e = slurp(err);
  unlink(out.c_str());
  unlink(err.c_str());
  CHECK(!WIFSIGNALED(s) || WTERMSIG(s) != SIGALRM, "the process hangs");
  if (text) CHECK(o.compare(0, 20, "text printed before\n") == 0, "the output is " << o);
  if (!failing) {
    CHECK(WIFEXITED(s) && WEXITSTATUS(s) == (w == 9 ? code : 0), "the status of a process that did not abort is " << s);
    CHECK(e.empty(), "a process that did not abort writes " << e);
    return;
  }
  nontrivial();
  CHECK(WIFEXITED(s) ? WEXITSTATUS(s) != 0 : WTERMSIG(s) == SIGABRT, "the status of a process that aborts is " << s);
  CHECK(e.find("AddressSanitizer") == std::string::npos, "memory error: " << e.substr(0, 2000));
  if (!blocked_err) {
    // a trace: a line for each of the calls that are active, 32 at most
    CHECK(std::count(e.begin(), e.end(), '\n') >= std::min(30L, depth + 3), "no trace of the calls is written on standard error: " << e);
  }
}
