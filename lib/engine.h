// Property-based testing engine: every case is a finite sequence of bounded
// integer choices.  Random generation records the choices; shrinking edits the
// recorded sequence and replays it; the replay file is the sequence itself.
// Cases run in forked workers so that an abort, a signal, a sanitizer report or
// a hang is an ordinary, attributable, shrinkable failure.
#ifndef PBT_ENGINE_H
#define PBT_ENGINE_H
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>

namespace pbt {

struct Failure {
  std::string msg, key;
};
struct Discard {};   // the generated case is outside the property's domain

enum Tier { QUICK, THOROUGH };

class Src {
 public:
  // Uniform in [0,n).  0 is always the simplest outcome.
  uint64_t draw(uint64_t n);
  long range(long lo, long hi) {             // inclusive; simplest is lo
    return hi <= lo ? lo : lo + (long)draw((uint64_t)(hi - lo) + 1);
  }
  long sint(long mag) {                      // 0,1,-1,2,-2,...
    long v = (long)draw(2 * (uint64_t)mag + 1);
    return (v & 1) ? (v + 1) / 2 : -(v / 2);
  }
  bool coin(unsigned num = 1, unsigned den = 2) {   // simplest is false
    return draw(den) >= den - num;
  }
  template <class T> const T &elem(const std::vector<T> &v) { return v[draw(v.size())]; }
  template <class T, size_t N> const T &elem(const T (&v)[N]) { return v[draw(N)]; }
  // index i with probability w[i]/sum(w); simplest is 0
  size_t weighted(std::initializer_list<unsigned> w);
  uint64_t bits64();
  double unit() { return (double)draw(1u << 30) / (double)(1u << 30); }
  Tier tier() const;
  uint64_t case_index() const;
};

// mark the running case as non-trivial (by the check's stated rule)
void nontrivial();
// count a label for the distribution table in the evidence
void label(const std::string &s);
// trace (only evaluated when the case is being written out)
bool tracing();
void note_str(const std::string &s);
#define NOTE(...) do { if (pbt::tracing()) { std::ostringstream o__; o__ << __VA_ARGS__; pbt::note_str(o__.str()); } } while (0)

[[noreturn]] void fail_str(const std::string &msg, const std::string &key = "");
#define FAIL(...) do { std::ostringstream o__; o__.precision(17); o__ << __VA_ARGS__; pbt::fail_str(o__.str()); } while (0)
#define FAIL_KEY(K, X) do { std::ostringstream o__; o__.precision(17); o__ << X; pbt::fail_str(o__.str(), K); } while (0)
#define CHECK(C, ...) do { if (!(C)) FAIL(__VA_ARGS__); } while (0)
#define DISCARD() throw pbt::Discard()

// Run f in a forked child.
//  RETURNED  f came back normally
//  REFUSED   f ended by abort(), an uncaught exception, exit(!=0) or out-of-memory
//  CRASHED   memory error (sanitizer report), SIGSEGV, SIGFPE, ...
//  HUNG      did not end within the limit
enum Outcome { RETURNED, REFUSED, CRASHED, HUNG };
Outcome probe(const std::function<void()> &f, std::string *stderr_tail = 0, int timeout_s = 20);
// probe() in which REFUSED is the only acceptable answer
void must_refuse(const std::string &what, const std::function<void()> &f);
// Not CRASHED / HUNG; returns the outcome
Outcome must_not_crash(const std::string &what, const std::function<void()> &f);
const char *outcome_name(Outcome o);

// bytes currently allocated (0 when no sanitizer)
size_t allocated_bytes();
// scratch directory of the running worker (private, removed at the end)
std::string scratch_dir();

// is key listed in the known-findings file for this property?
bool is_known(const std::string &key);

typedef void (*case_fn)(Src &);
struct Registrar { Registrar(const char *name, long quick, long thorough, case_fn f); };
#define TEST(NAME, QUICK, THOROUGH) \
  static void test_##NAME(pbt::Src &); \
  static pbt::Registrar reg_##NAME(#NAME, QUICK, THOROUGH, test_##NAME); \
  static void test_##NAME(pbt::Src &S)
// direct reproduction of a listed known finding; throws/crashes while it persists
typedef void (*repro_fn)();
struct KnownRepro { KnownRepro(const char *key, repro_fn f); };
#define KNOWN_REPRO(KEY, ID) \
  static void repro_##ID(); static pbt::KnownRepro kr_##ID(KEY, repro_##ID); \
  static void repro_##ID()

// defined by each check
extern const char *PROPERTY;
extern const char *RULE;      // how cases are made, what makes one non-trivial
extern const std::vector<std::string> ASSUMPTIONS;

}  // namespace pbt
using pbt::Src;
#endif
