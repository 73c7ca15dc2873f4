/* Preloaded: delays threads at random around synchronisation and reads, so
 * that runs see many interleavings. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static uint64_t seed;
static unsigned level = 0;
static uint32_t threads;
static __thread uint64_t state;

__attribute__((constructor)) static void init(void)
{
  const char* s = getenv("VP_DELAY");
  if (s) {
    seed = strtoull(s, NULL, 10);
    level = 1 + seed % 7;
  }
}

static void maybe(void)
{
  if (!level) {
    return;
  }
  if (!state) {
    uint32_t t = __atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED);
    state = (seed + t) * 0x9e3779b97f4a7c15ull | 1;
    /* Some threads are slow */
    if (state >> 40 & 1) {
      state |= 2;
    }
  }
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  unsigned r = state >> 33;
  if (r % 8 >= level) {
    return;
  }
  if (r & 64) {
    sched_yield();
    return;
  }
  struct timespec t = { 0, (long)(r >> 8) % (r & 128 ? 20000 : 600000) };
  nanosleep(&t, NULL);
}

#define REAL(name) \
  static __typeof__(name)* real; \
  if (!real) { \
    real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name); \
  }

int pthread_mutex_lock(pthread_mutex_t* m)
{
  REAL(pthread_mutex_lock)
  maybe();
  int r = real(m);
  return r;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
  REAL(pthread_mutex_unlock)
  int r = real(m);
  maybe();
  return r;
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
  REAL(pthread_cond_broadcast)
  maybe();
  int r = real(c);
  maybe();
  return r;
}

ssize_t read(int fd, void* b, size_t n)
{
  REAL(read)
  maybe();
  ssize_t r = real(fd, b, n);
  maybe();
  return r;
}

ssize_t readv(int fd, const struct iovec* v, int n)
{
  REAL(readv)
  maybe();
  ssize_t r = real(fd, v, n);
  maybe();
  return r;
}
