// System-call control.  In a forked child, install() makes every system call
// that can affect or order accesses to files trap into a hook, which may let it
// run, make it fail, run part of a write, or end the process there.  It works on
// the calls themselves (seccomp + SIGSYS), whatever library function makes them.
#ifndef PBT_SYSTRAP_H
#define PBT_SYSTRAP_H
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

namespace st {
static const uint32_t MAGIC = 0x5ca1ab1e;
typedef long (*hook_t)(long nr, long *a);   // returns the result (negative errno on failure)
static hook_t g_hook;

inline long raw(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
// the real call
inline long pass(long nr, const long *a) { return raw(nr, a[0], a[1], a[2], a[3], a[4], (long)MAGIC); }
inline long pass1(long nr, long a = 0, long b = 0, long c = 0, long d = 0) { long v[5] = {a, b, c, d, 0}; return pass(nr, v); }
[[noreturn]] inline void die(int code) { for (;;) raw(SYS_exit_group, code, 0, 0, 0, 0, 0); }

static const int TRAPPED[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2,
                              SYS_unlink, SYS_unlinkat, SYS_ftruncate, SYS_truncate, SYS_fsync, SYS_fdatasync, SYS_flock, SYS_fcntl, SYS_link, SYS_linkat,
                              SYS_mkdir, SYS_nanosleep, SYS_clock_nanosleep, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_fstat, SYS_statx,
                              SYS_copy_file_range, SYS_sendfile, SYS_fallocate};
inline const char *name(long nr) {
  switch (nr) {
    case SYS_open: return "open"; case SYS_openat: return "openat"; case SYS_creat: return "creat"; case SYS_write: return "write"; case SYS_writev: return "writev";
    case SYS_pwrite64: return "pwrite"; case SYS_close: return "close"; case SYS_rename: return "rename"; case SYS_renameat: return "renameat"; case SYS_renameat2: return "renameat2";
    case SYS_unlink: return "unlink"; case SYS_unlinkat: return "unlinkat"; case SYS_ftruncate: return "ftruncate"; case SYS_truncate: return "truncate"; case SYS_fsync: return "fsync";
    case SYS_fdatasync: return "fdatasync"; case SYS_flock: return "flock"; case SYS_fcntl: return "fcntl"; case SYS_link: return "link"; case SYS_mkdir: return "mkdir";
    case SYS_nanosleep: return "nanosleep"; case SYS_clock_nanosleep: return "sleep"; case SYS_access: return "access"; case SYS_faccessat: return "faccessat"; case SYS_faccessat2: return "faccessat2";
    case SYS_stat: return "stat"; case SYS_newfstatat: return "fstatat"; case SYS_fstat: return "fstat"; case SYS_statx: return "statx";
    default: return "other";
  }
}
static void on_sigsys(int, siginfo_t *si, void *uc) {
  ucontext_t *u = (ucontext_t *)uc;
  greg_t *g = u->uc_mcontext.gregs;
  long a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
  int e = errno;
  g[REG_RAX] = g_hook(si->si_syscall, a);
  errno = e;
}
// false when this system does not allow it
inline bool install(hook_t h) {
  g_hook = h;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, 0)) return false;
  const int N = sizeof TRAPPED / sizeof *TRAPPED;
  static struct sock_filter f[N + 8];
  int n = 0;
  f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
  f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 0, (unsigned char)(N + 1));   // else allow
  f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < N; ++i) f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)TRAPPED[i], (unsigned char)(N - i), 0);
  f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args) + 5 * 8);
  f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1);
  f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog p = {(unsigned short)n, f};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
template <class T> T *shared() {
  void *p = mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T *)p;
}
inline bool is_lock_name(const char *p) { size_t n = strlen(p); return n > 4 && !strcmp(p + n - 4, ".lck"); }
inline bool is_write(long nr) { return nr == SYS_write || nr == SYS_writev || nr == SYS_pwrite64 || nr == SYS_pwritev; }
inline bool is_open(long nr) { return nr == SYS_open || nr == SYS_openat || nr == SYS_creat; }
inline const char *open_path(long nr, const long *a) { return (const char *)(nr == SYS_openat ? a[1] : a[0]); }
inline long open_flags(long nr, const long *a) { return nr == SYS_openat ? a[2] : nr == SYS_creat ? (O_CREAT | O_WRONLY | O_TRUNC) : a[1]; }
inline bool is_rename(long nr) { return nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2; }
inline bool is_unlink(long nr) { return nr == SYS_unlink || nr == SYS_unlinkat; }
// bytes a write call was asked to write
inline long write_len(long nr, const long *a) {
  if (nr == SYS_write || nr == SYS_pwrite64) return a[2];
  long n = 0;
  const struct iovec *v = (const struct iovec *)a[1];
  for (long i = 0; i < a[2]; ++i) n += (long)v[i].iov_len;
  return n;
}
// write only the first n bytes
inline long partial(long nr, const long *a, long n) {
  if (nr == SYS_write || nr == SYS_pwrite64) { long b[5] = {a[0], a[1], n, a[3], a[4]}; return pass(nr, b); }
  const struct iovec *v = (const struct iovec *)a[1];
  long done = 0;
  for (long i = 0; i < a[2] && n > 0; ++i) {
    long w = (long)v[i].iov_len < n ? (long)v[i].iov_len : n;
    long r = pass1(SYS_write, a[0], (long)v[i].iov_base, w);
    if (r < 0) return done ? done : r;
    done += r; n -= r;
  }
  return done;
}
}  // namespace st
#endif
