#include "jobx.h"
using namespace jx;
const char *pbt::PROPERTY = "C30";
const char *pbt::RULE =
    "Random scans (1 to 600 jobs, now and then 20000) with every combination of --job-blocks, --this-job, --first-job and --last-job in any order among unrelated options; all block numbers of a division are run "
    "and the jobs they process are put together. Scans of up to 2^62 jobs, blocks up to 2^63-1, block numbers beyond the number of blocks, selections beyond the number of jobs, arguments that are not integers. Non-trivial: at least two jobs and a selection.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"the number of jobs fits in 62 bits", "a --last-job beyond the last job may be refused or taken as the last job"};

static std::string scan(Src &S, long n) {   // a description with n jobs, as one or two variables
  (void)S;
  return "x,0,1," + std::to_string(n);
}
static void vars(Src &S, Args &a, long n) {
  long d = 1;
  if (n > 3 && S.coin()) for (long k = 2; k < 8; ++k) if (n % k == 0) { d = k; break; }
  a.add("--variable", scan(S, n / d));
  if (d > 1) a.add("--variable", "y,0,1," + std::to_string(d));
}
// the jobs processed with these arguments
static std::vector<long> jobs_run(Args &a, long limit) {
  std::vector<long> r;
  jobs::Job job(a.argc(), a.argv());
  for (; job.to_do(); ++job) { r.push_back(job.current_job()); if ((long)r.size() > limit) FAIL("more than " << limit << " jobs are run:" << a.show()); }
  return r;
}
static Args shuffle(Src &S, std::vector<std::pair<std::string, std::string>> opts, long n, bool keep_order = false) {
  Args a;
  if (!keep_order) for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[S.draw(i)]);
  size_t at = S.draw(opts.size() + 1);
  noise(S, a);
  for (size_t i = 0; i <= opts.size(); ++i) {
    if (i == at) vars(S, a, n);
    if (i < opts.size()) { a.add(opts[i].first, opts[i].second); noise(S, a); }
  }
  return a;
}
static long gen_jobs(Src &S) { return S.coin(1, 40) ? S.range(1, 20000) : S.coin(1, 3) ? S.range(1, 600) : S.range(1, 30); }

TEST(all_blocks, 5000, 150000) {
  long n = gen_jobs(S);
  long blocks = S.coin() ? S.range(1, std::min(n + 4, 60L)) : S.coin() ? S.range(1, 40) : std::max(1L, n / S.range(1, 5) + S.sint(1));
  if (n > 1000) blocks = S.range(1, 20);
  if (blocks > 700) blocks = 700;
  NOTE(n << " jobs in " << blocks << " blocks");
  if (n >= 2) nontrivial();
  label(blocks > n ? "more blocks than jobs" : n % blocks ? "uneven" : "even");
  long next = 0;
  uint64_t order = S.draw(4);
  Args a = shuffle(S, {{"--job-blocks", std::to_string(blocks)}, {"--this-job", "@"}}, n);
  size_t slot = 0;
  for (size_t i = 0; i + 1 < a.a.size(); ++i) if (a.a[i] == "--this-job" && a.a[i + 1] == "@") slot = i + 1;
  NOTE("arguments:" << a.show());
  (void)order;
  for (long b = 0; b < blocks; ++b) {
    a.a[slot] = std::to_string(b);
    std::vector<long> r = jobs_run(a, n);
    for (long j : r) { if (j != next) FAIL("block " << b << " of " << blocks << " (" << n << " jobs) runs job " << j << " where job " << next << " was due"); ++next; }
  }
  if (next != n) FAIL("all blocks together run " << next << " of " << n << " jobs");
}
TEST(block_boundaries, 6000, 200000) {
  long n = gen_jobs(S);
  long blocks = S.coin() ? S.range(1, 3000) : S.coin() ? 2147483647L - (long)S.draw(3) : (long)S.draw(2147483647) + 1;
  long b = S.coin() ? (long)S.draw(blocks) : S.coin() ? std::min(blocks - 1, (long)S.draw(n + 2)) : S.coin() ? blocks - 1 : std::min(2147483646L, blocks + (long)S.draw(1000));
  NOTE(n << " jobs in " << blocks << " blocks, block " << b);
  if (n >= 2) nontrivial();
  auto run = [&](long k) { Args a = shuffle(S, {{"--job-blocks", std::to_string(blocks)}, {"--this-job", std::to_string(k)}}, n); return jobs_run(a, n); };
  std::vector<long> r = run(b), s = b + 1 < 2147483647L ? run(b + 1) : std::vector<long>();
  for (auto *q : {&r, &s}) for (size_t i = 0; i < q->size(); ++i) {
    if ((*q)[i] < 0 || (*q)[i] >= n) FAIL("job " << (*q)[i] << " of " << n << " is run");
    if (i && (*q)[i] != (*q)[i - 1] + 1) FAIL("block " << b << ": job " << (*q)[i] << " follows " << (*q)[i - 1]);
  }
  if (b >= blocks && r.size()) FAIL("block " << b << " of only " << blocks << " runs " << r.size() << " jobs");
  if (b == 0 && (r.empty() || r[0] != 0)) FAIL("the first block does not start with job 0");
  if (b + 1 < blocks && r.size() && s.size() && s[0] != r.back() + 1) FAIL("block " << b << " ends with job " << r.back() << " and the next starts with " << s[0]);
  if (b < blocks && r.size() && r.back() != n - 1 && (b + 1 >= blocks || s.empty())) FAIL("block " << b << " of " << blocks << " ends with job " << r.back() << " of " << n << " and no block follows");
  if (b < blocks && r.empty() && b + 1 < blocks && s.size()) FAIL("an empty block before one with jobs");
}
static void expect_range(const Args &a0, long n, long first, long last) {
  Args a = a0;
  std::vector<long> r = jobs_run(a, n), want;
  for (long j = first; j <= last; ++j) want.push_back(j);
  if (r != want) FAIL("jobs " << pbt::show(r) << " are run instead of " << first << " to " << last << " of " << n << ":" << a.show());
}
TEST(selections, 15000, 400000) {
  long n = gen_jobs(S);
  long f = (long)S.draw(n), l = f + (long)S.draw(n - f);
  std::vector<std::pair<std::string, std::string>> o;
  long first = 0, last = n - 1;
  switch (S.draw(6)) {
    case 0: break;
    case 1: o = {{"--first-job", std::to_string(f)}}; first = f; break;
    case 2: o = {{"--first-job", std::to_string(f)}, {"--last-job", std::to_string(l)}}; first = f; last = l; break;
    case 3: o = {{"--this-job", std::to_string(f)}}; first = last = f; break;
    case 4: { long b = S.range(1, n + 3); o = {{"--job-blocks", std::to_string(b)}}; long k = (n + b - 1) / b; (void)k;
      // the first block, whatever its size
      Args a = shuffle(S, o, n), c = shuffle(S, {{"--job-blocks", std::to_string(b)}, {"--this-job", "0"}}, n);
      NOTE("arguments:" << a.show());
      if (n >= 2) nontrivial();
      std::vector<long> r = jobs_run(a, n), r0 = jobs_run(c, n);
      if (r != r0) FAIL("without --this-job, jobs " << pbt::show(r) << " are run instead of those of block 0, " << pbt::show(r0));
      label("blocks only");
      return; }
    default: o = {{"--this-job", std::to_string(n + (long)S.draw(2147480000 - n))}}; first = n; last = n - 1;
  }
  Args a = shuffle(S, o, n, true);
  NOTE("arguments:" << a.show());
  if (n >= 2 && o.size()) nontrivial();
  label(o.empty() ? "none" : o.size() == 2 ? "first and last" : o[0].first);
  expect_range(a, n, first, last);
}
// refused, or no job is run
TEST(inconsistent, 6000, 150000) {
  long n = S.range(1, 50);
  long f = (long)S.draw(n), l = (long)S.draw(n);
  auto t = [](long x) { return std::to_string(x); };
  std::vector<std::pair<std::string, std::string>> o;
  std::string what;
  bool clip = false, keep = true;
  switch (S.draw(11)) {
    case 0: if (n < 2) DISCARD(); f = S.range(1, n - 1); l = (long)S.draw(f); o = {{"--first-job", t(f)}, {"--last-job", t(l)}}; what = "last before first"; break;
    case 1: o = {{"--first-job", t(n + (long)S.draw(100))}}; if (S.coin()) o.push_back({"--last-job", t(n + 100)}); what = "first beyond the end"; break;
    case 2: o = {{"--first-job", t(-1 - (long)S.draw(9))}}; if (S.coin()) o.push_back({"--last-job", t(l)}); what = "negative first"; break;
    case 3: o = {{"--last-job", t(l)}}; what = "last without first"; break;
    case 4: o = {{"--job-blocks", t(S.range(1, 9))}, {"--first-job", t(f)}}; if (S.coin()) std::swap(o[0], o[1]); what = "blocks and first"; break;
    case 5: o = {{"--job-blocks", t(-(long)S.draw(4))}}; if (S.coin()) o.push_back({"--this-job", t(f)}); keep = false; what = "no blocks"; break;
    case 6: o = {{"--first-job", t(f)}, {"--this-job", t(l)}}; keep = false; what = "first and this"; break;
    case 7: o = {{"--this-job", t(-1 - (long)S.draw(9))}}; if (S.coin()) o.push_back({"--job-blocks", t(S.range(1, 9))}); keep = false; what = "negative this"; break;
    case 8: o = {{"--first-job", t(f)}, {"--last-job", t(n + (long)S.draw(100))}}; clip = true; what = "last beyond the end"; break;
    case 9: o = {{"--first-job", t(f)}, {"--last-job", t(-1 - (long)S.draw(5))}}; what = "negative last"; break;
    default: o = {{"--first-job", t(f)}, {"--last-job", t(l)}, {"--job-blocks", t(S.range(1, 9))}}; what = "blocks, first and last";
  }
  Args a = shuffle(S, o, n, keep);
  NOTE(what << ":" << a.show());
  label(what);
  if (n >= 2) nontrivial();
  std::vector<long> want;
  for (long j = f; j < n; ++j) want.push_back(j);
  Outcome r = must_not_crash(what, [&] {
    std::vector<long> got = jobs_run(a, 1000000);
    if (clip ? got != want : !got.empty()) FAIL(what << ": jobs " << pbt::show(got) << " of " << n << " are run:" << a.show());
  });
  label(what + ": " + outcome_name(r));
}

// scans too large to run: where each block starts, and how it goes on
TEST(huge_scans, 6000, 200000) {
  long n = 1;
  Args a0;
  for (int i = 0, k = (int)S.range(2, 12); i < k; ++i) {
    long m = S.coin(1, 40) ? S.range(1, 20000) : S.range(1, 150);
    if (n > (1L << 62) / m) break;
    n *= m;
    a0.add("--variable", "v" + std::to_string(i) + ",0,1," + std::to_string(m));
  }
  long blocks = S.coin() ? S.range(1, 2000) : S.coin() ? std::max(1L, n / S.range(1, 5) + S.sint(3)) : (long)((S.bits64() >> 1) >> S.draw(63));
  if (blocks < 1) blocks = 1;
  long b = S.coin(1, 3) ? blocks - 1 - (long)S.draw(std::min(blocks, 3L)) : S.coin(1, 6) ? (long)(S.bits64() >> 1) : (long)S.draw(blocks);
  NOTE(n << " jobs in " << blocks << " blocks, block " << b << ":" << a0.show());
  if (n >= 2) nontrivial();
  label(n > 4294967296L ? "more than 2^32 jobs" : n > 100000 ? "more than 10^5 jobs" : "fewer");
  // the first job of a block, and of the following ones
  auto first = [&](long k, long &start) {
    Args a = a0;
    a.add("--job-blocks", std::to_string(blocks)).add("--this-job", std::to_string(k));
    jobs::Job job(a.argc(), a.argv());
    if (job.number_of_jobs() != n) FAIL("the scan has " << job.number_of_jobs() << " jobs instead of " << n);
    if (!job.to_do()) return false;
    start = job.current_job();
    if (start < 0 || start >= n) FAIL("block " << k << " of " << blocks << " starts with job " << start << " of " << n);
    for (int i = 1; i < 4; ++i) { ++job; if (!job.to_do()) break; if (job.current_job() != start + i) FAIL("block " << k << ": job " << job.current_job() << " follows " << start + i - 1); }
    return true;
  };
  long s0 = -1, s1 = -1, end = n;
  bool r0 = first(b, s0);
  if (b >= blocks) { if (r0) FAIL("block " << b << " of only " << blocks << " runs job " << s0); return; }
  bool r1 = b + 1 < blocks && first(b + 1, s1);
  if (b == 0 && (!r0 || s0 != 0)) FAIL("the first block does not start with job 0");
  if (!r0 && r1) FAIL("an empty block before one with jobs");
  if (r1) { end = s1; if (s1 <= s0) FAIL("block " << b << " starts with job " << s0 << " and the next with " << s1); }
  if (!r0) return;
  // the block ends exactly where the next starts: walk to it with an equivalent selection when it is short
  Args a = a0;
  a.add("--job-blocks", std::to_string(blocks)).add("--this-job", std::to_string(b));
  if (end - s0 <= 3000) {
    jobs::Job job(a.argc(), a.argv());
    long j = s0;
    for (; job.to_do(); ++job, ++j) if (job.current_job() != j || j >= end) FAIL("block " << b << " runs job " << job.current_job() << " beyond " << end);
    if (j != end) FAIL("block " << b << " ends with job " << j - 1 << " and the next starts with " << end);
    label("walked to its end");
  }
  // single jobs and intervals
  long f = n - 1 - (long)(S.bits64() % (uint64_t)std::min(n, 4L)), l = std::min(n - 1, f + (long)S.draw(3));
  if (S.coin()) { f = (long)(S.bits64() % (uint64_t)n); l = std::min(n - 1, f + (long)S.draw(5)); }
  Args c = a0;
  bool single = S.coin(1, 3);
  if (single) { l = f; c.add("--this-job", std::to_string(f)); }
  else c.add("--first-job", std::to_string(f)).add("--last-job", std::to_string(l));
  jobs::Job job(c.argc(), c.argv());
  long j = f;
  for (; job.to_do(); ++job, ++j) if (job.current_job() != j || j > l) FAIL("job " << job.current_job() << " is run instead of " << j << ":" << c.show());
  if (j != l + 1) FAIL("jobs " << f << " to " << j - 1 << " are run instead of up to " << l << ":" << c.show());
}
TEST(not_integers, 2000, 40000) {
  static const char *BAD[] = {"x", "1x", "1.5", "1e3", "--", "three", "0x", "2,3", "99999999999999999999", "-99999999999999999999", "- 1"};
  static const char *OPT[] = {"--this-job", "--job-blocks", "--first-job", "--last-job"};
  Args a;
  long n = S.range(1, 50);
  vars(S, a, n);
  std::string o = S.elem(OPT);
  noise(S, a);
  if (o == "--last-job") a.add("--first-job", "0");
  a.add(o, S.elem(BAD));
  noise(S, a);
  if (S.coin()) vars(S, a, 1);
  NOTE("arguments:" << a.show());
  nontrivial();
  must_refuse("a job number that is not an integer", [&] { jobs_run(a, 1000000); });
}
