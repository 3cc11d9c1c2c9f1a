// Generators and a reference model for job descriptions.
#ifndef PBT_JOBX_H
#define PBT_JOBX_H
#include "sdfx.h"
#include <tensor/jobs.h>

namespace jx {
struct Var {
  std::string name, tmin, tmax;
  int fields;       // 2, 3 or 4
  long steps;       // values it takes
  std::string tsteps;
  double lo() const { return strtod(tmin.c_str(), 0); }
  double hi() const { return fields == 2 ? lo() : strtod(tmax.c_str(), 0); }
  // value number i
  double value(long i) const { return steps == 1 ? lo() : lo() + (hi() - lo()) * ((double)i / (double)(steps - 1)); }
  double tol() const { return 8 * 2.3e-16 * std::max(std::abs(lo()), std::abs(hi())) + 1e-320; }
};
inline std::string number(Src &S) {
  static const char *T[] = {"0", "1", "-1", "2", "10", "0.5", "-2.5", ".25", "1.", "+3", "1e3", "1E-3", "-1.5e+2", "0.1", "1e-300", "1e300", "123456789", "0.3333333333333333", "-0", "007", "0x10"};
  if (S.coin()) return S.elem(T);
  char b[64];
  snprintf(b, sizeof b, S.coin() ? "%.6g" : "%.17g", gen_real(S));
  return b;
}
inline Var gen_var(Src &S, int i, long maxsteps) {
  Var v;
  static const char *N[] = {"a", "beta", "L", "x_1", "J-z", "U/t", "temp.", "--var", "n=3", "\"q\"", "9"};
  v.name = std::string(S.elem(N)) + std::to_string(i);
  if (i > 0 && i < 5 && S.coin(1, 4)) v.name = std::string("var") + std::string("0123456789").substr(0, S.coin() ? i : 10 - i);   // one name starts with another
  static const char *CASE[] = {"v", "V", "vv", "VV", "Vv"};
  if (i < 5 && S.coin(1, 8)) v.name = CASE[i];
  v.tmin = number(S);
  v.tmax = number(S);
  v.fields = (int)S.range(2, 4);
  if (v.fields == 3 && maxsteps < 10) v.fields = 2;
  v.steps = v.fields == 2 ? 1 : v.fields == 3 ? 10 : S.range(1, maxsteps);
  v.tsteps = std::to_string(v.steps);
  if (S.coin(1, 12)) v.tsteps = "+" + v.tsteps;
  return v;
}
inline std::vector<Var> gen_vars(Src &S, long lo, long hi, long maxjobs) {
  std::vector<Var> v;
  long jobs = 1;
  for (long n = S.range(lo, hi), i = 0; i < n; ++i) {
    Var x = gen_var(S, (int)i, std::max(1L, std::min(S.coin(1, 5) ? 400L : 9L, maxjobs / jobs)));
    jobs *= x.steps;
    v.push_back(x);
  }
  return v;
}
inline long count(const std::vector<Var> &v) { long n = 1; for (auto &x : v) n *= x.steps; return n; }
// one line of text: fields separated by any separators
inline std::string line_of(Src &S, const Var &v, bool command_line) {
  static const char *SEP[] = {",", " ", "\t", ";", ", ", " , ", "  ", ";\t", ",,", "\n"};
  auto sep = [&] { std::string s = S.elem(SEP); if (!command_line && s == "\n") s = ","; return s; };
  static const char *END[] = {"", "", "", " ", ",", "\t", " ;"};
  std::string s = S.coin(1, 5) ? (S.coin() ? " " : "\t,") : "";
  s += v.name + sep() + v.tmin;
  if (v.fields >= 3) s += sep() + v.tmax;
  if (v.fields >= 4) s += sep() + v.tsteps;
  return s + S.elem(END);
}
inline std::string file_of(Src &S, const std::vector<Var> &v) {
  std::string s;
  bool crlf = S.coin(1, 6);
  for (auto &x : v) {
    while (S.coin(1, 5)) s += S.coin() ? (crlf ? "\r\n" : "\n") : (crlf ? " \t\r\n" : " ,\n");
    s += line_of(S, x, false) + (crlf ? "\r\n" : "\n");
  }
  if (S.coin(1, 4)) { while (s.size() && (s.back() == '\n' || s.back() == '\r')) s.resize(s.size() - 1); }
  else if (S.coin(1, 4)) s += "\n \n";
  return s;
}
struct Args {
  std::vector<std::string> a;
  std::vector<const char *> p;
  Args &add(const std::string &x) { a.push_back(x); return *this; }
  Args &add(const std::string &x, const std::string &y) { a.push_back(x); a.push_back(y); return *this; }
  int argc() const { return (int)a.size(); }
  const char **argv() { p.clear(); for (auto &x : a) p.push_back(x.c_str()); p.push_back(0); return &p[0]; }
  std::string show() const { std::string s; for (auto &x : a) s += " " + sx::quote(x); return s; }
};
inline void noise(Src &S, Args &a) {
  static const char *U[] = {"prog", "--verbose", "-j", "3", "--jobs", "--this", "input.txt", "", "--variables", "-"};
  while (S.coin(1, 4)) a.add(S.elem(U));
}
// puts the variables on the command line and in files, in order
inline void add_vars(Src &S, Args &a, const std::vector<Var> &v) {
  size_t i = 0;
  int nf = 0;
  while (i < v.size()) {
    noise(S, a);
    if (S.coin(1, 3)) {
      size_t n = 1 + S.draw(v.size() - i);
      std::vector<Var> part(v.begin() + i, v.begin() + i + n);
      std::string f = scratch_dir() + "/job" + std::to_string(nf++), text = file_of(S, part);
      sx::spit(f, text);
      NOTE("job file " << nf - 1 << ": " << sx::quote(text));
      a.add("--job", f);
      i += n;
    } else a.add("--variable", line_of(S, v[i++], true));
  }
  noise(S, a);
}
// the combination of job number j: first variable fastest
inline std::vector<long> digits(const std::vector<Var> &v, long j) {
  std::vector<long> d;
  for (auto &x : v) { d.push_back(j % x.steps); j /= x.steps; }
  return d;
}
inline void expect_values(const jobs::Job &job, const std::vector<Var> &v, long j) {
  std::vector<long> d = digits(v, j);
  for (size_t i = 0; i < v.size(); ++i) {
    double got = job.get_value(v[i].name), want = v[i].value(d[i]);
    if (!(std::abs(got - want) <= v[i].tol())) FAIL("job " << j << ": variable " << v[i].name << " is " << got << " instead of " << want << " (value " << d[i] << " of " << v[i].steps << ")");
    if (got != job.get_value_with_default(v[i].name, -12345.0)) FAIL("job " << j << ": variable " << v[i].name << " differs when asked with a default");
  }
}
}  // namespace jx
#endif
