#include "jobx.h"
#include <set>
#include <sys/wait.h>
#include <dirent.h>
using namespace jx;
const char *pbt::PROPERTY = "C29";
const char *pbt::RULE =
    "Random descriptions of 0-5 (rarely 25) variables (constant, 10 values by default, or a given number; numbers written in many ways), given as options or in job files, with every separator, blank lines, DOS line ends and "
    "unrelated options around; all jobs are run and compared with mixed-radix counting, single jobs of huge scans are selected, values are stored in data sets, constants that are not finite and names that differ in case are tried, and malformed descriptions of every kind. "
    "Non-trivial: at least two jobs, or a malformed description.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the number of jobs fits in 62 bits", "variable names are different and without separators",
    "values are compared within 8 rounding errors of the larger end of the range"};

TEST(all_jobs, 9000, 250000) {
  std::vector<Var> v = S.coin(1, 25) ? gen_vars(S, 6, 25, 300) : gen_vars(S, 0, 5, S.coin(1, 12) ? 5000 : 200);
  Args a;
  noise(S, a);
  add_vars(S, a, v);
  NOTE("arguments:" << a.show());
  long n = count(v);
  if (n >= 2) nontrivial();
  label(std::to_string(v.size()) + " variables");
  jobs::Job job(a.argc(), a.argv());
  if (job.number_of_jobs() != n) FAIL("the scan has " << job.number_of_jobs() << " jobs instead of " << n);
  std::set<std::vector<double>> seen;
  bool distinct = true;
  for (auto &x : v) if (x.steps > 1 && !(std::abs(x.hi() - x.lo()) > 1000 * x.tol() * x.steps)) distinct = false;
  long j = 0;
  for (; job.to_do(); ++job, ++j) {
    if (j >= n) FAIL("more than " << n << " jobs are run");
    if (job.current_job() != j) FAIL("the job number is " << job.current_job() << " instead of " << j);
    expect_values(job, v, j);
    std::vector<double> c;
    for (auto &x : v) c.push_back(job.get_value(x.name));
    seen.insert(c);
    if (job.get_value_with_default("not there", 0.25 + (double)j) != 0.25 + (double)j) FAIL("a missing variable does not have its default value");
  }
  if (j != n) FAIL(j << " jobs are run instead of " << n);
  if (distinct && (long)seen.size() != n) FAIL(seen.size() << " combinations are visited instead of " << n);
  for (auto &x : v) {   // nor one that is named almost like another
    std::string near = x.name;
    switch (S.draw(3)) { case 0: for (auto &c : near) c = islower(c) ? toupper(c) : tolower(c); break; case 1: near += " "; break; default: near.resize(near.size() - 1); }
    bool other = true;
    for (auto &y : v) other &= y.name != near;
    jobs::Job first(a.argc(), a.argv());
    if (other && first.get_value_with_default(near, -3.5) != -3.5) FAIL("a missing variable " << sx::quote(near) << " does not have its default value");
  }
  // ends of the ranges are the given numbers
  for (auto &x : v) if (x.steps > 1) {
    jobs::Job first(a.argc(), a.argv());
    double w = first.get_value(x.name);
    if (w != x.lo()) FAIL("variable " << x.name << " starts at " << w << " instead of " << x.tmin);
  }
  if (S.coin(1, 10)) must_refuse("asking for a variable that does not exist", [&] { jobs::Job again(a.argc(), a.argv()); again.get_value("not there"); });
}

// constants that are not finite numbers are passed on, or refused
TEST(not_finite, 400, 8000) {
  static const char *T[] = {"nan", "inf", "-inf", "NaN", "infinity", "-Infinity", "1e999", "-1e400"};
  std::vector<Var> v = gen_vars(S, 0, 2, 9);
  Var x = gen_var(S, 5, 1);
  x.fields = 2; x.steps = 1; x.tmin = S.elem(T);
  Args a;
  add_vars(S, a, v);
  a.add("--variable", x.name + "," + x.tmin);
  NOTE("arguments:" << a.show());
  nontrivial();
  must_not_crash("a constant that is not finite", [&] {
    long n = 0;
    for (jobs::Job job(a.argc(), a.argv()); job.to_do(); ++job, ++n) {
      double want = x.lo(), p = job.get_value(x.name), q = job.get_value_with_default(x.name, 4.0);
      if (!same_num(p, want) || !same_num(q, want)) FAIL("variable " << x.name << " is " << p << " or, with a default, " << q << " instead of " << want);
      expect_values(job, v, n);
    }
    if (n != count(v)) FAIL(n << " jobs are run instead of " << count(v));
  });
}

TEST(huge_scans, 3000, 80000) {
  std::vector<Var> v;
  int n = (int)S.range(2, 6);
  long total = 1;
  for (int i = 0; i < n; ++i) {
    Var x = gen_var(S, i, S.coin(1, 3) ? 20000 : 300);
    if (total > (1L << 62) / x.steps) break;
    total *= x.steps;
    v.push_back(x);
  }
  long lim = S.coin() ? total : std::min(total, 2147483647L);
  long j = S.coin(1, 3) ? lim - 1 - (long)S.draw(std::min(lim, 4L)) : (long)S.draw(lim);
  Args a;
  if (S.coin()) a.add("--this-job", std::to_string(j));
  add_vars(S, a, v);
  if (a.a.empty() || a.a[0] != "--this-job") a.add("--this-job", std::to_string(j));
  NOTE("arguments:" << a.show());
  if (total >= 2) nontrivial();
  label(total > 2147483647L ? "more than 2^31 jobs" : total > 100000 ? "more than 10^5 jobs" : "fewer");
  jobs::Job job(a.argc(), a.argv());
  if (job.number_of_jobs() != total) FAIL("the scan has " << job.number_of_jobs() << " jobs instead of " << total);
  if (!job.to_do() || job.current_job() != j) FAIL("job " << job.current_job() << " is selected instead of " << j);
  expect_values(job, v, j);
  if (S.coin(1, 3)) {   // its record carries its number, whatever its size
    std::string dir = scratch_dir() + "/huge", other = dir + "/" + std::to_string((j ^ (1L << 32)) & ~(1L << 33));
    unlink((dir + "/" + std::to_string(j)).c_str());
    unlink(other.c_str());
    { jobs::Job::dataset d = job.open_dataset(dir); job.dump_variables(*d); }
    if (!job.dataset_record_exists(dir)) FAIL("the record of job " << j << " does not exist");
    std::string bytes;
    bool found = sx::slurp(dir + "/" + std::to_string(j), bytes), wrong = sx::slurp(other, bytes);
    if (!found || wrong) FAIL("job " << j << " leaves its record under another number");
    unlink((dir + "/" + std::to_string(j)).c_str());
    rmdir(dir.c_str());
  }
  ++job;
  if (job.to_do()) FAIL("a second job is run when one is selected");
}

TEST(print_jobs, 800, 15000) {
  std::vector<Var> v = gen_vars(S, 0, 4, 5000);
  Args a;
  if (S.coin()) a.add("--print-jobs");
  add_vars(S, a, v);
  if (a.a.empty() || a.a[0] != "--print-jobs") a.add("--print-jobs");
  NOTE("arguments:" << a.show());
  if (count(v) >= 2) nontrivial();
  int fd[2];
  if (pipe(fd)) abort();
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    dup2(fd[1], 1); close(fd[0]); close(fd[1]);
    { jobs::Job job(a.argc(), a.argv()); }
    _exit(55);
  }
  close(fd[1]);
  std::string s;
  char b[256];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) FAIL("--print-jobs does not end the program with success (status " << st << ")");
  char *e;
  long got = strtol(s.c_str(), &e, 10);
  while (*e == '\n' || *e == ' ') ++e;
  if (s.empty() || *e || got != count(v)) FAIL("--print-jobs says " << sx::quote(s) << " instead of " << count(v));
}

// what the jobs store
TEST(datasets, 1500, 30000) {
  std::vector<Var> v = gen_vars(S, 1, 4, 12);
  Args a;
  add_vars(S, a, v);
  long n = count(v);
  std::string dir = scratch_dir() + "/set";
  // left by an earlier case
  for (long j = 0; j < 5000; ++j) { std::string f = dir + "/" + std::to_string(j); if (unlink(f.c_str()) && j > 20) break; }
  rmdir(dir.c_str());
  NOTE("arguments:" << a.show());
  std::vector<char> done(n, 0);
  nontrivial();
  // some jobs first, then all of them
  long few = (long)S.draw(n + 1);
  for (int pass = 0; pass < 2; ++pass) {
    jobs::Job job(a.argc(), a.argv());
    for (; job.to_do(); ++job) {
      long j = job.current_job();
      if (!pass && j != few && !S.coin(1, 3)) continue;
      if (job.dataset_record_exists(dir) != (bool)done[j]) FAIL("job " << j << ": record said to " << (done[j] ? "not exist" : "exist"));
      jobs::Job::dataset d = job.open_dataset(dir);
      if ((d.operator->() == 0) != (bool)done[j]) FAIL("job " << j << ": data set " << (done[j] ? "opened again" : "not opened"));
      if (done[j]) continue;
      if (S.coin()) {   // copies of the handle are the same data set
        jobs::Job::dataset e = d, f = job.open_dataset(dir + "x" + std::to_string(j));
        f = e;
        job.dump_variables(*f);
      } else job.dump_variables(*d);
      if (S.coin()) d->dump((double)j, "result"); else (*d).dump((double)j, "result");
      done[j] = 1;
      if (job.dataset_record_exists(dir)) FAIL("job " << j << ": its record exists before it is complete");
    }
  }
  for (long j = 0; j < n; ++j) {
    { std::string x = dir + "x" + std::to_string(j); unlink((x + "/" + std::to_string(j)).c_str()); rmdir(x.c_str()); }
    std::string f = dir + "/" + std::to_string(j), bytes;
    if (!sx::slurp(f, bytes)) FAIL("job " << j << " left no record");
    sdf::InDataFile in(f);
    std::vector<long> dg = digits(v, j);
    for (size_t i = 0; i < v.size(); ++i) {
      double x;
      in.load(&x, v[i].name);
      if (!(std::abs(x - v[i].value(dg[i])) <= v[i].tol())) FAIL("job " << j << ": stored variable " << v[i].name << " is " << x << " instead of " << v[i].value(dg[i]));
    }
    double r;
    in.load(&r, "result");
    if (r != (double)j) FAIL("job " << j << ": the stored result is that of job " << r);
    in.close();
    unlink((f + ".lck").c_str());
    unlink(f.c_str());
  }
  rmdir(dir.c_str());
}

TEST(malformed, 6000, 120000) {
  std::vector<Var> v = gen_vars(S, 0, 3, 50);
  Args a;
  add_vars(S, a, v);
  Var x = gen_var(S, 7, 9);
  x.fields = 4;
  std::string bad, what;
  bool only_option = false, only_file = false;
  auto w = [&](const std::string &n, const std::string &p, const std::string &q, const std::string &r) { return n + "," + p + "," + q + "," + r; };
  static const char *NOTNUM[] = {"abc", "1x", "--", "1.2.3", "1e", "0..5", "e5", "one", "1/2", "3!"};
  static const char *NOTSTEPS[] = {"0", "-1", "-10", "x", "2.5", "1e1", "3z", "-0"};
  switch (S.draw(8)) {
    case 0: bad = S.coin() ? x.name : " " + x.name + " ,"; what = "no minimum value"; break;
    case 1: bad = w(x.name, x.tmin, x.tmax, x.tsteps) + "," + number(S); what = "too many fields"; break;
    case 2: bad = w(x.name, x.tmin, x.tmax, S.elem(NOTSTEPS)); what = "number of steps not positive"; break;
    case 3: bad = w(x.name, S.elem(NOTNUM), x.tmax, x.tsteps); if (S.coin()) bad = x.name + " " + S.elem(NOTNUM); what = "minimum not a number"; break;
    case 4: bad = w(x.name, x.tmin, S.elem(NOTNUM), x.tsteps); what = "maximum not a number"; break;
    case 5: bad = S.coin() ? "" : S.coin() ? " " : ",;"; what = "empty variable"; only_option = true; break;
    case 6: what = "missing argument"; break;
    default: what = "unreadable job file"; only_file = true;
  }
  if (what == "missing argument") { static const char *O[] = {"--variable", "--job", "--this-job", "--job-blocks", "--first-job", "--last-job"}; const char *o = S.elem(O); if (!strcmp(o, "--last-job")) a.add("--first-job", "0"); a.add(o); }
  else if (only_file) {
    std::string f = scratch_dir() + "/nojob";
    unlink(f.c_str());
    if (S.coin()) f = scratch_dir();
    a.add("--job", f);
  } else if (only_option || S.coin()) a.add("--variable", bad);
  else {
    std::vector<Var> before = gen_vars(S, 0, 2, 9), after = gen_vars(S, 0, 2, 9);
    std::string f = scratch_dir() + "/badjob";
    std::string text = file_of(S, before);
    if (text.size() && text.back() != '\n') text += "\n";
    text += bad + "\n" + file_of(S, after);
    sx::spit(f, text);
    NOTE("bad job file: " << sx::quote(text));
    what += " in a job file";
    a.add("--job", f);
  }
  if (what != "missing argument") noise(S, a);
  NOTE(what << ":" << a.show());
  label(what);
  nontrivial();
  must_refuse(what, [&] { jobs::Job job(a.argc(), a.argv()); });
}
