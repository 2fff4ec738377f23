// LD_PRELOAD shim that makes reads and writes of chosen files short,
// interrupted or failing, following a script. It logs what it delivered.
//
// FIO_IN=path or "fd0": input the read script applies to
// FIO_READ, FIO_WRITE (fd 1): comma-separated steps; s<n> at most n bytes,
//   i EINTR, e<errno> failure, n untouched; the last step repeats, with "!" it
//   is followed by untouched calls
// FIO_MMAP=errno: mapping the input fails
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int logfd = -2;
static const char *rpos, *wpos;
static int started;

static void init(void) {
  if (started) return;
  started = 1;
  rpos = getenv("FIO_READ");
  wpos = getenv("FIO_WRITE");
  const char *l = getenv("FIO_LOG");
  logfd = l ? syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666) : -1;
}
static void note(const char *s) {
  if (logfd >= 0) syscall(SYS_write, logfd, s, strlen(s));
}
static int is_input(int fd) {
  const char *p = getenv("FIO_IN");
  if (!p) return 0;
  if (!strcmp(p, "fd0")) return fd == 0;
  struct stat a, b;
  return fd > 2 && !fstat(fd, &a) && !stat(p, &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}
// returns the limit, or -1 with errno set
static long step(const char **pos, const char *what, long n) {
  char msg[64];
  const char *p = *pos;
  if (!p || !*p) return n;
  long lim = n, err = 0;
  char *end = (char *)p + 1;
  if (*p == 's') { lim = strtol(p + 1, &end, 10); if (lim > n) lim = n; }
  else if (*p == 'i') err = EINTR;
  else if (*p == 'e') err = strtol(p + 1, &end, 10);
  else if (*p == '!') { *pos = 0; return n; }
  if (*end == ',') *pos = end + 1;
  if (err) {
    snprintf(msg, sizeof msg, "%s error %ld\n", what, err);
    note(msg);
    errno = err;
    return -1;
  }
  if (lim < n) { snprintf(msg, sizeof msg, "%s short %ld\n", what, lim); note(msg); }
  return lim;
}
static long script(int fd, int wr, long n) {
  pthread_mutex_lock(&mu);
  init();
  long r = n;
  if (wr ? fd == 1 : is_input(fd)) r = step(wr ? &wpos : &rpos, wr ? "write" : "read", n);
  int e = errno;
  pthread_mutex_unlock(&mu);
  errno = e;
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  long l = script(fd, 0, (long)n);
  return l < 0 ? -1 : syscall(SYS_read, fd, b, l);
}
ssize_t write(int fd, const void *b, size_t n) {
  long l = script(fd, 1, (long)n);
  return l < 0 ? -1 : syscall(SYS_write, fd, b, l);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  long t = 0;
  for (int i = 0; i < c; i++) t += v[i].iov_len;
  long l = script(fd, 0, t);
  if (l < 0) return -1;
  if (l == t || !c) return syscall(SYS_readv, fd, v, c);
  int i = 0;
  while (i < c - 1 && !v[i].iov_len) i++;
  return syscall(SYS_read, fd, v[i].iov_base, l < (long)v[i].iov_len ? l : (long)v[i].iov_len);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  long t = 0;
  for (int i = 0; i < c; i++) t += v[i].iov_len;
  long l = script(fd, 1, t);
  if (l < 0) return -1;
  if (l == t || !c) return syscall(SYS_writev, fd, v, c);
  int i = 0;
  while (i < c - 1 && !v[i].iov_len) i++;
  return syscall(SYS_write, fd, v[i].iov_base, l < (long)v[i].iov_len ? l : (long)v[i].iov_len);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  long l = script(fd, 0, (long)n);
  return l < 0 ? -1 : syscall(SYS_pread64, fd, b, l, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off_t o) {
  const char *m = getenv("FIO_MMAP");
  if (m && fd >= 0 && is_input(fd)) {
    pthread_mutex_lock(&mu);
    init();
    note("mmap error\n");
    pthread_mutex_unlock(&mu);
    errno = atoi(m);
    return MAP_FAILED;
  }
  return (void *)syscall(SYS_mmap, a, n, p, f, fd, o);
}
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return mmap64(a, n, p, f, fd, o); }
