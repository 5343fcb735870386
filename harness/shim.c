/* LD_PRELOAD: counts the file operations below one folder, and can end the
 * process before, or within, the n-th, let it fail, or stop the process
 * there until it is told to go on.  See driver.py.                         */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

/* modes */
enum { OFF = 0, COUNT = 1, KILL = 2, TORN = 3, FAIL = 4, FAILALL = 5, SHORT = 6, FULL = 7, STOP = 8 };
static int mode = OFF, hits = 0, seen = 0, target = 0, errcode = ENOSPC, part = 0, reads = 0;
static char prefix[4096];
static size_t plen = 0;
static char kinds[65536];

void vf_arm(int m, int n, int err, int p, int r, const char *dir) {
  mode = OFF; hits = 0; seen = 0; target = n; errcode = err; part = p; reads = r;
  strncpy(prefix, dir, sizeof prefix - 1);
  plen = strlen(prefix);
  memset(kinds, 0, sizeof kinds);
  mode = m;
}
int vf_disarm(void) { mode = OFF; return seen; }
int vf_hits(void) { return hits; }
const char *vf_kinds(void) { return kinds; }

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

static int skip(const char *p) {
  size_t n = strlen(p);
  return n > 4 && !strcmp(p + n - 4, ".log");
}
static int in_path(int dirfd, const char *p) {
  if (mode == OFF || !p) return 0;
  char full[8192];
  if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
  else {
    char base[4096], lnk[64];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else {
      snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
      ssize_t k = readlink(lnk, base, sizeof base - 1);
      if (k < 0) return 0;
      base[k] = 0;
    }
    snprintf(full, sizeof full, "%s/%s", base, p);
  }
  return !strncmp(full, prefix, plen) && !skip(full);
}
static int in_fd(int fd) {
  if (mode == OFF) return 0;
  char lnk[64], p[4096];
  snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(lnk, p, sizeof p - 1);
  if (k < 0) return 0;
  p[k] = 0;
  return !strncmp(p, prefix, plen) && !skip(p);
}
/* 0 go on, 1 fail with errno, 2 do a part and then end or fail */
static int decide(char kind) {
  if ((kind == 'r' || kind == 'o' || kind == 'k') && !reads) return 0;
  if (kind == 'i' && reads < 2) return 0;
  int n = ++seen;
  if (n < (int)sizeof kinds) kinds[n - 1] = kind;
  switch (mode) {
    case KILL: if (n == target) die(); return 0;
    case TORN: if (n == target) { if (kind == 'w') return 2; die(); } return 0;
    case FAIL: if (n == target) { errno = errcode; return 1; } return 0;
    case FAILALL: if (n >= target) { errno = errcode; return 1; } return 0;
    case FULL: if (n >= target && strchr("cwdlsf", kind)) { errno = errcode; return 1; } return 0;
    case STOP: if (n == target || (part > 0 && n == target + part)) syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP); return 0;
    case SHORT: if (n == target) { if (kind == 'w') return 2; errno = errcode; return 1; }
                if (n > target) { errno = errcode; return 1; } return 0;
  }
  return 0;
}
static int gate(char kind) {
  int g = decide(kind);
  if (g) ++hits;
  return g;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
static char okind(int flags) { return (flags & (O_CREAT | O_TRUNC)) ? 'c' : (flags & O_ACCMODE) == O_RDONLY ? 'o' : 'c'; }

#define OPEN(name) int name(const char *p, int flags, ...) { \
  REAL(name); mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  if (in_path(AT_FDCWD, p) && gate(okind(flags))) return -1; \
  return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { \
  REAL(name); mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  if (in_path(d, p) && gate(okind(flags))) return -1; \
  return real(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)

static size_t partial(size_t n) {
  if (part == 0) return n / 2;
  if (part == 1) return n ? 1 : 0;
  return n ? n - 1 : 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (in_fd(fd)) {
    int g = gate('w');
    if (g == 1) return -1;
    if (g == 2) {
      size_t k = partial(n);
      if (k) { ssize_t x = real(fd, b, k); (void)x; }
      if (mode == TORN) die();
      if (k) return (ssize_t)k;      /* what follows fails */
      errno = errcode; return -1;
    }
  }
  return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(read);
  if (mode != OFF && reads && in_fd(fd) && gate('r')) return -1;
  return real(fd, b, n);
}
#define SIMPLE(name, kind, cond, args, call) int name args { REAL(name); if ((cond) && gate(kind)) return -1; return real call; }
SIMPLE(ftruncate, 't', in_fd(fd), (int fd, off_t l), (fd, l))
SIMPLE(ftruncate64, 't', in_fd(fd), (int fd, off64_t l), (fd, l))
SIMPLE(truncate, 't', in_path(AT_FDCWD, p), (const char *p, off_t l), (p, l))
SIMPLE(rename, 'm', in_path(AT_FDCWD, a) || in_path(AT_FDCWD, b), (const char *a, const char *b), (a, b))
SIMPLE(renameat, 'm', in_path(d, a) || in_path(e, b), (int d, const char *a, int e, const char *b), (d, a, e, b))
SIMPLE(unlink, 'u', in_path(AT_FDCWD, p), (const char *p), (p))
SIMPLE(unlinkat, 'u', in_path(d, p), (int d, const char *p, int f), (d, p, f))
SIMPLE(remove, 'u', in_path(AT_FDCWD, p), (const char *p), (p))
SIMPLE(mkdir, 'd', in_path(AT_FDCWD, p), (const char *p, mode_t m), (p, m))
SIMPLE(rmdir, 'u', in_path(AT_FDCWD, p), (const char *p), (p))
SIMPLE(link, 'l', in_path(AT_FDCWD, a) || in_path(AT_FDCWD, b), (const char *a, const char *b), (a, b))
SIMPLE(symlink, 'l', in_path(AT_FDCWD, b), (const char *a, const char *b), (a, b))
/* looking at what is there counts only when reads is 2 */
SIMPLE(stat, 'i', in_path(AT_FDCWD, p), (const char *p, struct stat *b), (p, b))
SIMPLE(stat64, 'i', in_path(AT_FDCWD, p), (const char *p, struct stat64 *b), (p, b))
SIMPLE(lstat, 'i', in_path(AT_FDCWD, p), (const char *p, struct stat *b), (p, b))
SIMPLE(lstat64, 'i', in_path(AT_FDCWD, p), (const char *p, struct stat64 *b), (p, b))
SIMPLE(fstatat, 'i', in_path(d, p), (int d, const char *p, struct stat *b, int f), (d, p, b, f))
SIMPLE(fstatat64, 'i', in_path(d, p), (int d, const char *p, struct stat64 *b, int f), (d, p, b, f))
SIMPLE(faccessat, 'i', in_path(d, p), (int d, const char *p, int m, int f), (d, p, m, f))
SIMPLE(access, 'i', in_path(AT_FDCWD, p), (const char *p, int m), (p, m))
DIR *opendir(const char *p) {
  REAL(opendir);
  if (in_path(AT_FDCWD, p) && gate('i')) return NULL;
  return real(p);
}
SIMPLE(flock, 'k', in_fd(fd), (int fd, int op), (fd, op))
SIMPLE(fsync, 's', in_fd(fd), (int fd), (fd))
SIMPLE(fdatasync, 's', in_fd(fd), (int fd), (fd))
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  static ssize_t (*real)(int, int, off_t *, size_t);
  if (!real) real = (ssize_t(*)(int, int, off_t *, size_t))dlsym(RTLD_NEXT, "sendfile");
  if (in_fd(o) && gate('f')) return -1;
  return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  static ssize_t (*real)(int, int, off64_t *, size_t);
  if (!real) real = (ssize_t(*)(int, int, off64_t *, size_t))dlsym(RTLD_NEXT, "sendfile64");
  if (in_fd(o) && gate('f')) return -1;
  return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
  static ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned);
  if (!real) real = (ssize_t(*)(int, off64_t *, int, off64_t *, size_t, unsigned))dlsym(RTLD_NEXT, "copy_file_range");
  if (in_fd(o) && gate('f')) return -1;
  return real(i, a, o, b, n, f);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev);
  if (in_fd(fd) && gate('w')) return -1;
  return real(fd, v, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  if (in_fd(fd) && gate('w')) return -1;
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (in_fd(fd) && gate('w')) return -1;
  return real(fd, b, n, o);
}
