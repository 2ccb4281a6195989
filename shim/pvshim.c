/* LD_PRELOAD shim for the posidonius program: numbers its file-modifying calls below PV_DIR, logs
 * them to PV_LOG, and kills the process (PV_KILL=n:before|half|after) or makes a call fail
 * (PV_FAIL=n:errno|short|eintr) at a chosen one, or all writes (n:from28: a full disk) or all
 * operations (n:all30: a disk gone read-only) from a chosen one on.  PV_TIME fixes the calendar clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#define REAL(r, n, ...) static r (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, n)
static long count = 0, kill_at = -1, fail_at = -1; static int phase = 0, err = 0, mode = 0, ready = 0, logfd = -1; static char dir[4096];
static void init(void) {
  if (ready) return; ready = 1;
  char *d = getenv("PV_DIR"); if (d) snprintf(dir, sizeof dir, "%s/", d);
  char *k = getenv("PV_KILL"); if (k) { kill_at = atol(k); char *c = strchr(k, ':'); phase = !c ? 0 : !strcmp(c + 1, "half") ? 1 : !strcmp(c + 1, "after") ? 2 : 0; }
  char *f = getenv("PV_FAIL"); if (f) { fail_at = atol(f); char *c = strchr(f, ':'); if (c) { if (!strcmp(c + 1, "short")) mode = 1; else if (!strcmp(c + 1, "eintr")) mode = 2; else if (!strncmp(c + 1, "from", 4)) { mode = 4; err = atoi(c + 5); } else if (!strncmp(c + 1, "all", 3)) { mode = 5; err = atoi(c + 4); } else { mode = 3; err = atoi(c + 1); } } }
  char *l = getenv("PV_LOG"); if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static int under(const char *p) {
  init(); if (!dir[0] || !p) return 0;
  if (p[0] == '/') return !strncmp(p, dir, strlen(dir));
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd - 2)) return 0; strcat(cwd, "/"); return !strncmp(cwd, dir, strlen(dir)) ; }
static int fdpath(int fd, char *b, size_t n) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, b, n - 1); if (k < 0) return 0; b[k] = 0; return under(b); }
static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
/* returns the number of this operation */
static long op(const char *what, const char *p, long a) {
  long n = ++count;
  if (logfd >= 0) { char b[4400]; int k = snprintf(b, sizeof b, "%ld %s %s %ld\n", n, what, base(p), a); syscall(SYS_write, logfd, b, k); }
  if (n == kill_at && phase == 0) die();
  return n;
}
#define AFTER(n) if ((n) == kill_at) die()
#define FAILS(n) (((n) == fail_at && mode == 3) || ((n) >= fail_at && fail_at > 0 && mode == 5))
#define FAILSW(n) (FAILS(n) || ((n) >= fail_at && fail_at > 0 && mode == 4))
static int doopen(int dfd, const char *p, int fl, mode_t m) {
  long n = 0; if ((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && under(p)) { n = op(fl & O_TRUNC ? "create" : "open", p, fl); if (FAILS(n)) { errno = err; return -1; } }
  int r = syscall(SYS_openat, dfd, p, fl, m); int e = errno; if (n) AFTER(n); errno = e; return r; }
#define VMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { VMODE return doopen(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { VMODE return doopen(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { VMODE return doopen(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { VMODE return doopen(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return doopen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
ssize_t write(int fd, const void *b, size_t k) {
  char p[4096]; if (fd <= 2 || !fdpath(fd, p, sizeof p)) return syscall(SYS_write, fd, b, k);
  long n = op("write", p, k); size_t q = k;
  if (FAILSW(n)) { errno = err; return -1; } if (n == fail_at) { if (mode == 2) { errno = EINTR; return -1; } if (mode == 1) q = k > 1 ? k / 2 : k; }
  if (n == kill_at && phase == 1) q = k / 2;
  ssize_t r = q || !k ? syscall(SYS_write, fd, b, q) : 0; int e = errno; AFTER(n); errno = e; return r; }
ssize_t writev(int fd, const struct iovec *v, int c) {
  char p[4096]; if (fd <= 2 || !fdpath(fd, p, sizeof p)) return syscall(SYS_writev, fd, v, c);
  /* one buffer at a time: a short write is always allowed */
  int i = 0; while (i < c - 1 && !v[i].iov_len) i++;
  return c ? write(fd, v[i].iov_base, v[i].iov_len) : 0; }
static ssize_t dopwrite(int fd, const void *b, size_t k, off_t o) {
  char p[4096]; if (!fdpath(fd, p, sizeof p)) return syscall(SYS_pwrite64, fd, b, k, o);
  long n = op("pwrite", p, k); size_t q = k;
  if (FAILSW(n)) { errno = err; return -1; } if (n == fail_at) { if (mode == 2) { errno = EINTR; return -1; } if (mode == 1) q = k > 1 ? k / 2 : k; }
  if (n == kill_at && phase == 1) q = k / 2;
  ssize_t r = q ? syscall(SYS_pwrite64, fd, b, q, o) : 0; int e = errno; AFTER(n); errno = e; return r; }
ssize_t pwrite(int fd, const void *b, size_t k, off_t o) { return dopwrite(fd, b, k, o); }
ssize_t pwrite64(int fd, const void *b, size_t k, off_t o) { return dopwrite(fd, b, k, o); }
#define PATHOP(name, sig, call, path, log) int name sig { long n = 0; if (under(path)) { n = op(log, path, 0); if (FAILS(n)) { errno = err; return -1; } } int r = call; int e = errno; if (n) AFTER(n); errno = e; return r; }
PATHOP(rename, (const char *a, const char *b), syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b), b, "rename")
PATHOP(renameat, (int x, const char *a, int y, const char *b), syscall(SYS_renameat, x, a, y, b), b, "rename")
PATHOP(renameat2, (int x, const char *a, int y, const char *b, unsigned f), syscall(SYS_renameat2, x, a, y, b, f), b, "rename")
PATHOP(unlink, (const char *a), syscall(SYS_unlink, a), a, "unlink")
PATHOP(unlinkat, (int d, const char *a, int f), syscall(SYS_unlinkat, d, a, f), a, "unlink")
PATHOP(link, (const char *a, const char *b), syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0), b, "link")
PATHOP(linkat, (int x, const char *a, int y, const char *b, int f), syscall(SYS_linkat, x, a, y, b, f), b, "link")
PATHOP(truncate, (const char *a, off_t k), syscall(SYS_truncate, a, k), a, "truncate")
PATHOP(truncate64, (const char *a, off_t k), syscall(SYS_truncate, a, k), a, "truncate")
#define FDOP(name, sig, call, fd, log) int name sig { char p[4096]; long n = 0; if (fdpath(fd, p, sizeof p)) { n = op(log, p, 0); if (FAILS(n)) { errno = err; return -1; } } int r = call; int e = errno; if (n) AFTER(n); errno = e; return r; }
FDOP(ftruncate, (int fd, off_t k), syscall(SYS_ftruncate, fd, k), fd, "truncate")
FDOP(ftruncate64, (int fd, off_t k), syscall(SYS_ftruncate, fd, k), fd, "truncate")
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t k, unsigned f) { char p[4096]; long n = 0; if (fdpath(b, p, sizeof p)) { n = op("copy", p, k); if (FAILSW(n)) { errno = err; return -1; } }
  size_t q = k; if (n && n == kill_at && phase == 1) q = 1000; ssize_t r = syscall(SYS_copy_file_range, a, x, b, y, q, f); int e = errno; if (n) AFTER(n); errno = e; return r; }
ssize_t sendfile64(int b, int a, off_t *x, size_t k) { char p[4096]; long n = 0; if (fdpath(b, p, sizeof p)) { n = op("copy", p, k); if (FAILSW(n)) { errno = err; return -1; } }
  size_t q = k; if (n && n == kill_at && phase == 1) q = 1000; ssize_t r = syscall(SYS_sendfile, b, a, x, q); int e = errno; if (n) AFTER(n); errno = e; return r; }
int clock_gettime(clockid_t c, struct timespec *t) {
  char *m = c == CLOCK_MONOTONIC ? getenv("PV_MONO") : 0; static long calls = 0;
  /* a stopwatch that advances by PV_MONO microseconds per reading */
  if (m) { long us = ++calls * atol(m); t->tv_sec = 1000 + us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0; }
  char *s = c == CLOCK_REALTIME ? getenv("PV_TIME") : 0;
  if (!s) return syscall(SYS_clock_gettime, c, t) ? -1 : 0;
  /* a calendar clock that jumps half a day with every PV_TICK operations, if asked to */
  char *k = getenv("PV_TICK"); t->tv_sec = atol(s) + (k && atol(k) > 0 ? (count / atol(k)) * 43200 : 0); t->tv_nsec = 0; return 0; }
