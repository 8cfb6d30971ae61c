/* Preloaded: counts the operations of this process which change files below a folder, and ends, fails or pauses the process at one of them.
   Inert until mc_arm is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { COUNT = 0, CRASH = 1, FAIL = 2, PAUSE = 3, HALF = 4 };
static char prefix[4096];
static long at[8], n_at, part, count;
static int mode, armed, error, told, wait_for;
static char log_[65536];
static long log_len;
static unsigned char mine[65536];

void mc_arm(const char *folder, int m, const long *ops, long n, long bytes, int err, int tell_fd, int wait_fd) {
  snprintf(prefix, sizeof prefix, "%s", folder);
  n_at = n > 8 ? 8 : n; memcpy(at, ops, n_at * sizeof *at);
  mode = m; part = bytes; error = err; told = tell_fd; wait_for = wait_fd; count = 0; log_len = 0; armed = 1;
  memset(mine, 0, sizeof mine);
}
long mc_count(void) { return count; }
const char *mc_log(void) { log_[log_len] = 0; return log_; }
void mc_disarm(void) { armed = 0; }

static int below(const char *p) {
  char buf[8192];
  if (!armed || !p) return 0;
  if (p[0] != '/') { char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(buf, sizeof buf, "%s/%s", cwd, p); p = buf; }
  return strncmp(p, prefix, strlen(prefix)) == 0;
}

/* before an operation: 0 to go on, -1 to fail; *bytes is what is left to be written first */
static int point(const char *what, const char *name, long size, long *bytes) {
  int k, hit = 0;
  if (!armed) return 0;
  if (log_len < (long)sizeof log_ - 5000) log_len += sprintf(log_ + log_len, "%s %.2000s %ld\n", what, name ? name : "", size);
  for (k = 0; k < n_at; k++) if (at[k] == count) hit = 1;
  count++;
  if (!hit) return 0;
  if (mode == CRASH) { if (bytes && part > 0) { *bytes = part < size ? part : size; return 1; } _exit(99); }
  if (mode == HALF) { if (bytes) *bytes = part < size ? part : size; return 2; }
  if (mode == FAIL) { errno = error; return -1; }
  if (mode == PAUSE) {
    char c = 'p'; int e = errno;
    syscall(SYS_write, told, &c, 1);
    while (syscall(SYS_read, wait_for, &c, 1) < 0 && errno == EINTR) ;
    errno = e;
  }
  return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int changes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int note(int fd) { if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 1; return fd; }
static int is_mine(int fd) { return armed && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
static int forget(int fd) { if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0; return fd; }

#define OPEN(fn, extra) { int m = 0, c; va_list a; if (flags & (O_CREAT | 020000000)) { va_start(a, flags); m = va_arg(a, int); va_end(a); } \
  c = changes(flags) && below(path); if (c && point("open", path, 0, NULL) < 0) return -1; \
  m = extra; return c ? note(m) : forget(m); }
int open(const char *path, int flags, ...) { REAL(int, "open", const char *, int, ...); OPEN(open, real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(int, "open64", const char *, int, ...); OPEN(open64, real(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); OPEN(openat, real(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); OPEN(openat64, real(d, path, flags, m)) }

static ssize_t raw(int fd, const void *b, size_t n, off64_t at_, int positioned) {
  return positioned ? syscall(SYS_pwrite64, fd, b, n, at_) : syscall(SYS_write, fd, b, n);
}
static ssize_t put(int fd, const void *b, size_t n, off64_t off, int positioned) {
  long bytes = 0; int r;
  if (!is_mine(fd)) return raw(fd, b, n, off, positioned);
  r = point("write", NULL, (long)n, &bytes);
  if (r < 0) return -1;
  if (r == 1) { raw(fd, b, (size_t)bytes, off, positioned); _exit(99); }
  if (r == 2) { if (bytes) raw(fd, b, (size_t)bytes, off, positioned); errno = ENOSPC; return -1; }
  return raw(fd, b, n, off, positioned);
}
ssize_t write(int fd, const void *b, size_t n) { return put(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return put(fd, b, n, off, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return put(fd, b, n, off, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  if (is_mine(fd) && point("writev", NULL, 0, NULL) < 0) return -1;
  return real(fd, v, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
  if (is_mine(o) && point("sendfile", NULL, (long)n, NULL) < 0) return -1;
  return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  if (is_mine(o) && point("sendfile", NULL, (long)n, NULL) < 0) return -1;
  return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  if (is_mine(o) && point("copy", NULL, (long)n, NULL) < 0) return -1;
  return real(i, io, o, oo, n, f);
}
int close(int fd) { REAL(int, "close", int); forget(fd); return real(fd); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); if (is_mine(fd) && point("ftruncate", NULL, n, NULL) < 0) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (is_mine(fd) && point("ftruncate", NULL, n, NULL) < 0) return -1; return real(fd, n); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if ((below(a) || below(b)) && point("rename", b, 0, NULL) < 0) return -1; return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if ((below(a) || below(b)) && point("rename", b, 0, NULL) < 0) return -1; return real(d, a, e, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (below(b) && point("link", b, 0, NULL) < 0) return -1; return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); if (below(b) && point("symlink", b, 0, NULL) < 0) return -1; return real(a, b); }
int unlink(const char *a) { REAL(int, "unlink", const char *); if (below(a) && point("unlink", a, 0, NULL) < 0) return -1; return real(a); }
int rmdir(const char *a) { REAL(int, "rmdir", const char *); if (below(a) && point("rmdir", a, 0, NULL) < 0) return -1; return real(a); }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (below(a) && point("mkdir", a, 0, NULL) < 0) return -1; return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (below(a) && point("mkdir", a, 0, NULL) < 0) return -1; return real(d, a, m); }
int fsync(int fd) { REAL(int, "fsync", int); if (is_mine(fd) && point("fsync", NULL, 0, NULL) < 0) return -1; return real(fd); }
