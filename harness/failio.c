/* Preloaded: makes chosen reads or writes of the files below a directory fail. Used by checks/c24.py. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <stdatomic.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_long count, fired;
static long first = -1, last = -1;
static int error_no, kind; /* kind: 'w' writes, 'r' reads */
static char prefix[PATH_MAX];

/* Operations first..last (from 0) on files below `dir` fail with `error`; error 0: only half of the bytes. */
void failio_arm(const char* dir, int what, long from, long to, int error)
{
  strncpy(prefix, dir, sizeof(prefix) - 1);
  kind = what;
  error_no = error;
  first = from;
  last = to;
  count = fired = 0;
}

long failio_count(void) { return count; }
long failio_fired(void) { return fired; }

/* 0: as usual; 1: fail; 2: shortened */
static int hit(int fd, int what, size_t size)
{
  char link[64], path[PATH_MAX];
  if (what != kind)
    return 0;
  snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof(path) - 1);
  if (n < 0)
    return 0;
  path[n] = 0;
  if (strncmp(path, prefix, strlen(prefix)))
    return 0;
  long k = count++;
  if (k < first || k > last)
    return 0;
  if (!error_no) {
    if (size < 2)
      return 0;
    fired++;
    return 2;
  }
  fired++;
  errno = error_no;
  return 1;
}

#define REAL(name) \
  static __typeof__(name)* real; \
  if (!real) \
    real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)

#define WRAP(name, what, buffer_type, extra_decl, extra) \
  ssize_t name(int fd, buffer_type buf, size_t size extra_decl) \
  { \
    REAL(name); \
    int h = kind ? hit(fd, what, size) : 0; \
    if (h == 1) \
      return -1; \
    return real(fd, buf, h == 2 ? size / 2 : size extra); \
  }
#define COMMA ,
WRAP(write, 'w', const void*, , )
WRAP(pwrite, 'w', const void*, COMMA off_t off, COMMA off)
WRAP(pwrite64, 'w', const void*, COMMA off64_t off, COMMA off)
WRAP(read, 'r', void*, , )
WRAP(pread, 'r', void*, COMMA off_t off, COMMA off)
WRAP(pread64, 'r', void*, COMMA off64_t off, COMMA off)

ssize_t readv(int fd, const struct iovec* v, int n)
{
  REAL(readv);
  return kind && hit(fd, 'r', 1) == 1 ? -1 : real(fd, v, n);
}

ssize_t writev(int fd, const struct iovec* v, int n)
{
  REAL(writev);
  return kind && hit(fd, 'w', 1) == 1 ? -1 : real(fd, v, n);
}

int ftruncate(int fd, off_t size)
{
  REAL(ftruncate);
  return kind && hit(fd, 'w', 1) == 1 ? -1 : real(fd, size);
}

int ftruncate64(int fd, off64_t size)
{
  REAL(ftruncate64);
  return kind && hit(fd, 'w', 1) == 1 ? -1 : real(fd, size);
}
