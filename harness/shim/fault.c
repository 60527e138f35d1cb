// Fault injector: counts the file operations of a tool in its working directory and makes chosen ones fail.
//   FAULT=n:kind[,n:kind...]   operation n (from 0): an errno number, or s<k> for a transfer of at most k bytes
//   FAULT_LOG=path             one character per operation (o open, r read, w write, l seek, t truncate, c copy, m chmod, f sync, n rename)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static unsigned char mine[1024];
static int count, logfd = -1, ready;
static struct { int n, err, cap; } faults[8];
static int nfaults;

static void setup(void) {
  if (ready) return;
  ready = 1;
  const char *p = getenv("FAULT");
  while (p && *p && nfaults < 8) {
    char *e;
    faults[nfaults].n = strtol(p, &e, 10);
    if (*e != ':') break;
    e++;
    if (*e == 's') faults[nfaults].cap = 1 + strtol(e + 1, &e, 10), faults[nfaults].err = 0;
    else faults[nfaults].err = strtol(e, &e, 10);
    nfaults++;
    p = *e == ',' ? e + 1 : e;
  }
  p = getenv("FAULT_LOG");
  if (p) logfd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
}
// -1: fails with errno set; otherwise the cap (0: none) plus nothing
static long op(char c, size_t *n) {
  setup();
  if (logfd >= 0) syscall(SYS_write, logfd, &c, 1);
  int k = count++;
  for (int i = 0; i < nfaults; i++)
    if (faults[i].n == k) {
      if (faults[i].err) { errno = faults[i].err; return -1; }
      if (n && faults[i].cap && *n > (size_t)faults[i].cap - 1) *n = faults[i].cap - 1;
    }
  return 0;
}
static int is(int fd) { return fd >= 0 && fd < 1024 && mine[fd]; }
static int do_open(int dir, const char *path, int flags, int mode) {
  int m = path[0] != '/' && dir == AT_FDCWD;
  if (m && op('o', 0) < 0) return -1;
  int fd = syscall(SYS_openat, dir, path, flags, mode);
  if (fd >= 0 && fd < 1024) mine[fd] = m;
  return fd;
}
#define MODE va_list a; va_start(a, flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a)
int open(const char *p, int flags, ...) { MODE; return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE; return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE; return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE; return do_open(d, p, flags, mode); }
int close(int fd) { if (fd >= 0 && fd < 1024) mine[fd] = 0; return syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) { if (is(fd) && op('r', &n) < 0) return -1; return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (is(fd) && op('r', &n) < 0) return -1; return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) { if (is(fd) && op('r', 0) < 0) return -1; return syscall(SYS_readv, fd, v, n); }
static ssize_t wr(int fd, const void *b, size_t n) {
  if (is(fd)) { size_t m = n; if (op('w', &m) < 0) return -1; if (m == 0 && n) return 0; n = m; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (is(fd)) { size_t m = n; if (op('w', &m) < 0) return -1; if (m == 0 && n) return 0; n = m; }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (is(fd)) {
    size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len;
    size_t m = t; if (op('w', &m) < 0) return -1;
    if (m < t) { ssize_t d = 0; for (int i = 0; i < n && m; i++) { size_t k = v[i].iov_len < m ? v[i].iov_len : m; ssize_t x = syscall(SYS_write, fd, v[i].iov_base, k); if (x < 0) return d ? d : -1; d += x; m -= x; if ((size_t)x < k) break; } return d; }
  }
  return syscall(SYS_writev, fd, v, n);
}
off64_t lseek64(int fd, off64_t o, int w) { if (is(fd) && op('l', 0) < 0) return -1; return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t n) { if (is(fd) && op('t', 0) < 0) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { if ((is(a) || is(b)) && op('c', &n) < 0) return -1; return syscall(SYS_copy_file_range, a, x, b, y, n, f); }
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) { if ((is(i) || is(o)) && op('c', &n) < 0) return -1; return syscall(SYS_sendfile, o, i, x, n); }
ssize_t sendfile(int o, int i, off_t *x, size_t n) { return sendfile64(o, i, x, n); }
int chmod(const char *p, mode_t m) { if (p[0] != '/' && op('m', 0) < 0) return -1; return syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { if (is(fd) && op('m', 0) < 0) return -1; return syscall(SYS_fchmod, fd, m); }
int fsync(int fd) { if (is(fd) && op('f', 0) < 0) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (is(fd) && op('f', 0) < 0) return -1; return syscall(SYS_fdatasync, fd); }
int rename(const char *a, const char *b) { if (op('n', 0) < 0) return -1; return syscall(SYS_rename, a, b); }
