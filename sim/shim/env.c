// LD_PRELOAD: decides what a compiler process sees of entropy, time and its own identity.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
static uint64_t seed, ctr;
static long skew;
static int on;
static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
__attribute__((constructor)) static void init(void) {
  const char *s = getenv("PD_HASH_SEED"), *k = getenv("PD_CLOCK_SKEW");
  if (s) { seed = strtoull(s, 0, 10); on = 1; }
  if (k) skew = strtol(k, 0, 10);
}
ssize_t getrandom(void *p, size_t n, unsigned f) {
  if (!on) return syscall(SYS_getrandom, p, n, f);
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)mix(seed ^ mix(__atomic_fetch_add(&ctr, 1, __ATOMIC_RELAXED)));
  return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  long r = syscall(SYS_clock_gettime, c, t);
  if (!r && c == CLOCK_REALTIME) t->tv_sec += skew;
  return (int)r;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
