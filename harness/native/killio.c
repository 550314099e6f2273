/* Kill the process group at the n-th call modifying the results in a directory.

   KILLIO_DIR: prefix of the paths, KILLIO_N: number of the call,
   KILLIO_COUNT: file whose size is the number of calls (shared by the processes). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int relevant(const char *path) {
  const char *dir = getenv("KILLIO_DIR");
  if (!dir || !path)
    return 0;
  size_t n = strlen(dir);
  if (strncmp(path, dir, n))
    return 0;
  const char *rest = strchr(path + n, '/');
  if (!rest)
    return 0;
  rest++;
  return strncmp(rest, "log_", 4) && strncmp(rest, "job_", 4) &&
         strncmp(rest, "params_files", 12) && strncmp(rest, "indices_files", 13);
}

static int relevant_fd(int fd) {
  char link[64], path[PATH_MAX];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0)
    return 0;
  path[n] = 0;
  return relevant(path);
}

static void step(void) {
  static int (*real_open)(const char *, int, ...);
  static ssize_t (*real_write)(int, const void *, size_t);
  if (!real_open) {
    real_open = dlsym(RTLD_NEXT, "open");
    real_write = dlsym(RTLD_NEXT, "write");
  }
  const char *count = getenv("KILLIO_COUNT");
  long limit = atol(getenv("KILLIO_N") ? getenv("KILLIO_N") : "0");
  int fd = real_open(count, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0)
    return;
  real_write(fd, "x", 1);
  struct stat st;
  fstat(fd, &st);
  close(fd);
  if (st.st_size == limit) {
    kill(0, SIGKILL);
    pause();
  }
}

#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *buf, size_t n) {
  REAL(write);
  if (relevant_fd(fd)) step();
  return real(fd, buf, n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  REAL(pwrite);
  if (relevant_fd(fd)) step();
  return real(fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  REAL(pwrite64);
  if (relevant_fd(fd)) step();
  return real(fd, buf, n, off);
}
int ftruncate(int fd, off_t n) {
  REAL(ftruncate);
  if (relevant_fd(fd)) step();
  return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
  REAL(ftruncate64);
  if (relevant_fd(fd)) step();
  return real(fd, n);
}
int rename(const char *a, const char *b) {
  REAL(rename);
  if (relevant(b)) step();
  return real(a, b);
}
int unlink(const char *a) {
  REAL(unlink);
  if (relevant(a)) step();
  return real(a);
}
int open(const char *path, int flags, ...) {
  REAL(open);
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap);
  }
  if ((flags & O_CREAT) && relevant(path)) step();
  return real(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  REAL(open64);
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap);
  }
  if ((flags & O_CREAT) && relevant(path)) step();
  return real(path, flags, mode);
}
int openat(int dirfd, const char *path, int flags, ...) {
  REAL(openat);
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap);
  }
  if ((flags & O_CREAT) && relevant(path)) step();
  return real(dirfd, path, flags, mode);
}
