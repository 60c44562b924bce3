// LD_PRELOAD: the storage and process seam of a command-line tool. Every file-system call and
// every child the tool starts is numbered; a plan says which of them fail, are cut short or
// are the moment at which the process (or the whole machine) stops.
//
//   PD_ROOT   scratch directory; nothing outside it may be changed
//   PD_TRACE  file that receives one line per numbered call
//   PD_PLAN   "k:action[:n],..." with k a call number; actions: see fault()
//   PD_SEED   decides the order in which directories are listed
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })
static int on, tracefd = -1;
static long ncall;
static uint64_t seed;
static const char *root;
static size_t rootlen;
static struct { long k; char act[12]; long n; } plan[16];
static int nplan;
static int disk_full, read_only;
static struct { int dup, dirty; } files[256];
static int nfiles;

static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
__attribute__((constructor)) static void init(void) {
  root = getenv("PD_ROOT");
  if (!root) return;
  rootlen = strlen(root);
  const char *t = getenv("PD_TRACE"), *p = getenv("PD_PLAN"), *s = getenv("PD_SEED");
  if (s) seed = strtoull(s, 0, 10);
  if (t) {
    tracefd = (int)syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    int hi = (int)syscall(SYS_fcntl, tracefd, F_DUPFD_CLOEXEC, 900);
    if (hi >= 0) { syscall(SYS_close, tracefd); tracefd = hi; }
  }
  while (p && *p && nplan < 16) {
    char *e;
    plan[nplan].k = strtol(p, &e, 10);
    plan[nplan].n = -1;
    if (*e != ':') break;
    p = e + 1;
    size_t l = strcspn(p, ":,");
    if (l > 11) break;
    memcpy(plan[nplan].act, p, l);
    p += l;
    if (*p == ':') { plan[nplan].n = strtol(p + 1, &e, 10); p = e; }
    nplan++;
    if (*p == ',') p++;
  }
  on = 1;
}
static int inside(const char *p) {
  return !strncmp(p, root, rootlen) && (p[rootlen] == 0 || p[rootlen] == '/');
}
static void resolve(int at, const char *p, char *out, size_t n) {
  if (p[0] == '/') snprintf(out, n, "%s", p);
  else {
    char cwd[2048] = "";
    if (at == AT_FDCWD) syscall(SYS_getcwd, cwd, sizeof cwd);
    else {
      char l[64];
      snprintf(l, sizeof l, "/proc/self/fd/%d", at);
      long r = syscall(SYS_readlinkat, AT_FDCWD, l, cwd, sizeof cwd - 1);
      cwd[r > 0 ? r : 0] = 0;
    }
    snprintf(out, n, "%s/%s", cwd, p);
  }
}
// the path whose name would change, with everything before its last component resolved
static int changes_inside(int at, const char *p) {
  char a[4096], b[4096];
  resolve(at, p, a, sizeof a);
  for (int i = 0; i < 40; i++) {
    char *r = REAL(realpath)(a, b);
    if (r) return inside(b);
    char *s = strrchr(a, '/');
    if (!s || s == a) return inside(a);
    *s = 0;
  }
  return 0;
}
static const char *fdpath(int fd, char *b, size_t n) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long r = syscall(SYS_readlinkat, AT_FDCWD, l, b, n - 1);
  b[r > 0 ? r : 0] = 0;
  return b;
}
static void note(const char *what, const char *path, const char *act, long n) {
  if (tracefd < 0) return;
  char b[4600];
  int l = snprintf(b, sizeof b, "%ld\t%s\t%s\t%s\t%ld\n", ncall - 1, what, path ? (inside(path) ? path + rootlen : path) : "", act, n);
  if (l > (int)sizeof b - 1) l = sizeof b - 1;
  syscall(SYS_write, tracefd, b, l);
}
static void stop(int power) {
  if (power)
    for (int i = 0; i < nfiles; i++)
      if (files[i].dirty) {
        struct stat st;
        if (syscall(SYS_fstat, files[i].dup, &st) == 0 && st.st_size > 0)
          syscall(SYS_ftruncate, files[i].dup, (long)(mix(seed ^ (uint64_t)ncall ^ (i + 7)) % (uint64_t)st.st_size));
      }
  syscall(SYS_exit_group, 137);
}
// what the plan says about this call: 0 = nothing, 1 = fail with errno, 2 = cut short to *n, 3 = act on the child
static int lasterr, after;
static char childact[24];
static int fault(const char *what, const char *path, int mutating, long *n) {
  long k = ncall++;
  after = 0;
  const char *act = "-";
  int r = 0;
  for (int i = 0; i < nplan; i++)
    if (plan[i].k == k) {
      act = plan[i].act;
      if (!strcmp(act, "full")) disk_full = 1;
      else if (!strcmp(act, "rofs")) read_only = 1;
      else if (!strcmp(act, "crash")) { note(what, path, act, 0); stop(0); }
      else if (!strcmp(act, "power")) { note(what, path, act, 0); stop(1); }
      else if (!strcmp(act, "crasha")) after = 1;
      else if (!strcmp(act, "powera")) after = 2;
      else if (!strcmp(act, "short")) { if (n && *n > plan[i].n && plan[i].n > 0) { *n = plan[i].n; r = 2; } }
      else if (!strcmp(act, "torn")) { if (n && *n > plan[i].n && plan[i].n >= 0) *n = plan[i].n; after = 1; r = 2; }
      else if (!strcmp(act, "child")) {
        static const char *m[] = {"exit128", "exit129", "kill", "garbage", "nostart"};
        snprintf(childact, sizeof childact, "PD_ACT=%s", m[plan[i].n >= 0 ? plan[i].n % 5 : 0]);
        r = 3;
      } else {
        static const struct { const char *s; int e; } errs[] = {{"eio", EIO}, {"enospc", ENOSPC}, {"eacces", EACCES}, {"eintr", EINTR}, {"emfile", EMFILE},
                                                                {"enomem", ENOMEM}, {"erofs", EROFS}, {"edquot", EDQUOT}, {"enoent", ENOENT}, {"epipe", EPIPE}, {"eagain", EAGAIN}};
        for (unsigned j = 0; j < sizeof errs / sizeof *errs; j++)
          if (!strcmp(act, errs[j].s)) { lasterr = errs[j].e; r = 1; }
      }
    }
  if (mutating && disk_full && !r && (mutating & 2)) { lasterr = ENOSPC; act = "ENOSPC"; r = 1; }
  if (mutating && read_only && !r) { lasterr = EROFS; act = "EROFS"; r = 1; }
  note(what, path, act, n ? *n : 0);
  if (r == 1) errno = lasterr;
  return r;
}
static void done(void) {
  if (!after) return;
  int e = errno;
  stop(after == 2);
  errno = e;
}
static int forbidden(const char *what, int at, const char *p) {
  if (changes_inside(at, p)) return 0;
  char a[4096];
  resolve(at, p, a, sizeof a);
  note("ESCAPE", a, what, 0);
  errno = EACCES;
  return 1;
}
static void track(int fd) {
  if (fd < 0 || nfiles >= 256) return;
  int d = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 500);
  if (d < 0) return;
  files[nfiles].dup = d;
  files[nfiles].dirty = 0;
  nfiles++;
}
static int same(int a, int b) {
  struct stat x, y;
  return !syscall(SYS_fstat, a, &x) && !syscall(SYS_fstat, b, &y) && x.st_ino == y.st_ino && x.st_dev == y.st_dev;
}
static void dirty(int fd, int v) {
  for (int i = 0; i < nfiles; i++)
    if (same(files[i].dup, fd)) files[i].dirty = v;
}
static int wr(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
static int interesting(const char *p) { return inside(p); }

static int doopen(int at, const char *p, int fl, mode_t m) {
  if (!on) return (int)syscall(SYS_openat, at, p, fl, m);
  char a[4096];
  resolve(at, p, a, sizeof a);
  if (!strncmp(a, "/proc/", 6) || !strncmp(a, "/dev/", 5) || !strncmp(a, "/sys/", 5)) return (int)syscall(SYS_openat, at, p, fl, m);
  if (wr(fl) && forbidden("open", at, p)) return -1;
  if (!interesting(a)) return (int)syscall(SYS_openat, at, p, fl, m);
  if (fault(wr(fl) ? "openw" : "openr", a, wr(fl) ? (fl & O_CREAT && syscall(SYS_faccessat, AT_FDCWD, a, 0) ? 3 : 1) : 0, 0) == 1) return -1;
  int fd = (int)syscall(SYS_openat, at, p, fl, m);
  if (wr(fl) && fd >= 0) {
    track(fd);
    if (fl & O_TRUNC) dirty(fd, 1);
  }
  done();
  return fd;
}
#define MODE(m) mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(m); return doopen(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE(m); return doopen(AT_FDCWD, p, fl, m); }
int openat(int at, const char *p, int fl, ...) { MODE(m); return doopen(at, p, fl, m); }
int openat64(int at, const char *p, int fl, ...) { MODE(m); return doopen(at, p, fl, m); }
int creat(const char *p, mode_t m) { return doopen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return doopen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int fdclass(int fd, char *b, size_t n) {  // 0 none, 1 file inside, 2 stdout/stderr, 3 pipe
  if (fd == 1 || fd == 2) { snprintf(b, n, "<%d>", fd); return 2; }
  fdpath(fd, b, n);
  if (interesting(b)) return 1;
  if (!strncmp(b, "pipe:", 5)) return 3;
  return 0;
}
ssize_t read(int fd, void *p, size_t n) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  // how many pieces a child's output arrives in is not decided here, so those reads are not numbered
  if (c == 1) {
    long k = (long)n;
    if (fault("read", b, 0, &k) == 1) return -1;
    n = (size_t)k;
  }
  ssize_t r = syscall(SYS_read, fd, p, n);
  if (c == 1) done();
  return r;
}
ssize_t pread64(int fd, void *p, size_t n, off64_t o) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1) {
    long k = (long)n;
    if (fault("read", b, 0, &k) == 1) return -1;
    n = (size_t)k;
  }
  ssize_t r = syscall(SYS_pread64, fd, p, n, o);
  if (c) done();
  return r;
}
ssize_t write(int fd, const void *p, size_t n) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1 || c == 2) {
    long k = (long)n;
    if (fault(c == 1 ? "write" : "print", b, c == 1 ? 3 : 0, &k) == 1) return -1;
    n = (size_t)k;
    if (c == 1) dirty(fd, 1);
  }
  ssize_t r = syscall(SYS_write, fd, p, n);
  if (c) done();
  return r;
}
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1) {
    long k = (long)n;
    if (fault("write", b, 3, &k) == 1) return -1;
    n = (size_t)k;
    dirty(fd, 1);
  }
  ssize_t r = syscall(SYS_pwrite64, fd, p, n, o);
  if (c == 1) done();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1 || c == 2) {
    long k = 0;
    for (int i = 0; i < n; i++) k += (long)v[i].iov_len;
    int f = fault(c == 1 ? "write" : "print", b, c == 1 ? 3 : 0, &k);
    if (f == 1) return -1;
    if (c == 1) dirty(fd, 1);
    if (f == 2) {
      ssize_t r = 0;
      for (int i = 0; i < n && k > 0; i++) {
        size_t m = v[i].iov_len < (size_t)k ? v[i].iov_len : (size_t)k;
        ssize_t w = syscall(SYS_write, fd, v[i].iov_base, m);
        if (w > 0) { r += w; k -= w; }
      }
      done();
      return r;
    }
  }
  ssize_t r = syscall(SYS_writev, fd, v, n);
  if (c) done();
  return r;
}
static int sync_(int fd, const char *w) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1 && fault(w, b, 0, 0) == 1) return -1;
  if (c == 1) { dirty(fd, 0); done(); }
  return 0;
}
int fsync(int fd) { return sync_(fd, "fsync"); }
int fdatasync(int fd) { return sync_(fd, "fsync"); }
static int trunc_(int fd, off64_t n) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1 && fault("truncate", b, 1, 0) == 1) return -1;
  int r = (int)syscall(SYS_ftruncate, fd, n);
  if (c == 1) { dirty(fd, 1); done(); }
  return r;
}
int ftruncate(int fd, off_t n) { return trunc_(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_(fd, n); }
int truncate(const char *p, off_t n) {
  if (!on) return (int)syscall(SYS_truncate, p, n);
  char a[4096];
  resolve(AT_FDCWD, p, a, sizeof a);
  if (forbidden("truncate", AT_FDCWD, p) || fault("truncate", a, 1, 0) == 1) return -1;
  int r = (int)syscall(SYS_truncate, p, n);
  done();
  return r;
}
int renameat2(int a1, const char *p, int a2, const char *q, unsigned fl) {
  if (!on) return (int)syscall(SYS_renameat2, a1, p, a2, q, fl);
  char a[4096];
  resolve(a2, q, a, sizeof a);
  // the new name is what changes; its own last component is not followed
  if (forbidden("rename", a1, p) || forbidden("rename", a2, q) || fault("rename", a, 1, 0) == 1) return -1;
  int r = (int)syscall(SYS_renameat2, a1, p, a2, q, fl);
  done();
  return r;
}
int rename(const char *p, const char *q) { return renameat2(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return renameat2(a, p, b, q, 0); }
int unlinkat(int at, const char *p, int fl) {
  if (!on) return (int)syscall(SYS_unlinkat, at, p, fl);
  char a[4096];
  resolve(at, p, a, sizeof a);
  if (forbidden("unlink", at, p) || fault("unlink", a, 1, 0) == 1) return -1;
  int r = (int)syscall(SYS_unlinkat, at, p, fl);
  done();
  return r;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int mkdirat(int at, const char *p, mode_t m) {
  if (!on) return (int)syscall(SYS_mkdirat, at, p, m);
  char a[4096];
  resolve(at, p, a, sizeof a);
  if (forbidden("mkdir", at, p) || fault("mkdir", a, 3, 0) == 1) return -1;
  int r = (int)syscall(SYS_mkdirat, at, p, m);
  done();
  return r;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int linkat(int a1, const char *p, int a2, const char *q, int fl) {
  if (!on) return (int)syscall(SYS_linkat, a1, p, a2, q, fl);
  char a[4096];
  resolve(a2, q, a, sizeof a);
  if (forbidden("link", a2, q) || fault("link", a, 3, 0) == 1) return -1;
  int r = (int)syscall(SYS_linkat, a1, p, a2, q, fl);
  done();
  return r;
}
int link(const char *p, const char *q) { return linkat(AT_FDCWD, p, AT_FDCWD, q, 0); }
int symlinkat(const char *t, int at, const char *q) {
  if (!on) return (int)syscall(SYS_symlinkat, t, at, q);
  char a[4096];
  resolve(at, q, a, sizeof a);
  if (forbidden("symlink", at, q) || fault("symlink", a, 3, 0) == 1) return -1;
  int r = (int)syscall(SYS_symlinkat, t, at, q);
  done();
  return r;
}
int symlink(const char *t, const char *q) { return symlinkat(t, AT_FDCWD, q); }
int fchmod(int fd, mode_t m) {
  char b[4096];
  int c = on ? fdclass(fd, b, sizeof b) : 0;
  if (c == 1 && fault("chmod", b, 1, 0) == 1) return -1;
  int r = (int)syscall(SYS_fchmod, fd, m);
  if (c == 1) done();
  return r;
}
int chmod(const char *p, mode_t m) {
  if (!on) return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m);
  char a[4096];
  resolve(AT_FDCWD, p, a, sizeof a);
  if (forbidden("chmod", AT_FDCWD, p) || fault("chmod", a, 1, 0) == 1) return -1;
  int r = (int)syscall(SYS_fchmodat, AT_FDCWD, p, m);
  done();
  return r;
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) {
  (void)a; (void)x; (void)b; (void)y; (void)n; (void)fl;
  if (on) { errno = ENOSYS; return -1; }  // std then copies with read and write
  return syscall(SYS_copy_file_range, a, x, b, y, n, fl);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  if (on) { errno = ENOSYS; return -1; }
  return syscall(SYS_sendfile, a, b, o, n);
}
// ---- metadata
static int st_(const char *w, int at, const char *p) {
  char a[4096];
  if (!p || !*p) return 0;
  resolve(at, p, a, sizeof a);
  if (!interesting(a)) return 0;
  return fault(w, a, 0, 0) == 1 ? -1 : 1;
}
int stat64(const char *p, struct stat64 *s) {
  int c = on ? st_("stat", AT_FDCWD, p) : 0;
  if (c < 0) return -1;
  int r = (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
  if (c) done();
  return r;
}
int lstat64(const char *p, struct stat64 *s) {
  int c = on ? st_("stat", AT_FDCWD, p) : 0;
  if (c < 0) return -1;
  int r = (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
  if (c) done();
  return r;
}
int fstatat64(int at, const char *p, struct stat64 *s, int fl) {
  int c = on ? st_("stat", at, p) : 0;
  if (c < 0) return -1;
  int r = (int)syscall(SYS_newfstatat, at, p, s, fl);
  if (c) done();
  return r;
}
int statx(int at, const char *restrict p, int fl, unsigned mask, struct statx *restrict s) {
  int c = on && p ? st_("stat", at, p) : 0;
  if (c < 0) return -1;
  int r = (int)syscall(SYS_statx, at, p, fl, mask, s);
  if (c) done();
  return r;
}
// ---- directories: listed whole, sorted, then shuffled by the seed
static struct { DIR *d; struct dirent64 **e; int n, i; } dirs[64];
static int cmp(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static void load(DIR *d, const char *p) {
  for (int s = 0; s < 64; s++)
    if (!dirs[s].d) {
      struct dirent64 *e;
      int cap = 0, n = 0;
      struct dirent64 **v = 0;
      while ((e = REAL(readdir64)(d))) {
        if (n == cap) v = realloc(v, sizeof *v * (cap = cap * 2 + 16));
        v[n] = malloc(sizeof *e);
        memset(v[n], 0, sizeof *e);
        memcpy(v[n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        n++;
      }
      if (n) qsort(v, (size_t)n, sizeof *v, cmp);
      uint64_t h = seed;
      for (const char *c = inside(p) ? p + rootlen : p; *c; c++) h = mix(h ^ (uint8_t)*c);
      for (int i = n - 1; i > 0 && seed; i--) {
        h = mix(h);
        int j = (int)(h % (uint64_t)(i + 1));
        struct dirent64 *t = v[i];
        v[i] = v[j];
        v[j] = t;
      }
      dirs[s].d = d;
      dirs[s].e = v;
      dirs[s].n = n;
      dirs[s].i = 0;
      return;
    }
}
DIR *opendir(const char *p) {
  if (!on) return REAL(opendir)(p);
  char a[4096];
  resolve(AT_FDCWD, p, a, sizeof a);
  if (interesting(a) && fault("opendir", a, 0, 0) == 1) return 0;
  DIR *d = REAL(opendir)(p);
  if (d && interesting(a)) load(d, a);
  done();
  return d;
}
DIR *fdopendir(int fd) {
  DIR *d = REAL(fdopendir)(fd);
  char b[4096];
  if (d && on && interesting(fdpath(fd, b, sizeof b))) load(d, b);
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  if (on)
    for (int s = 0; s < 64; s++)
      if (dirs[s].d == d) {
        if (dirs[s].i < dirs[s].n && dirs[s].e[dirs[s].i]->d_name[0] != '.') {
          if (fault("readdir", dirs[s].e[dirs[s].i]->d_name, 0, 0) == 1) return 0;
          done();
        }
        return dirs[s].i < dirs[s].n ? dirs[s].e[dirs[s].i++] : 0;
      }
  return REAL(readdir64)(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  for (int s = 0; s < 64; s++)
    if (dirs[s].d == d) {
      for (int i = 0; i < dirs[s].n; i++) free(dirs[s].e[i]);
      free(dirs[s].e);
      dirs[s].d = 0;
    }
  return REAL(closedir)(d);
}
// ---- children: never shimmed themselves
static char **childenv(char *const *env) {
  int n = 0, k = 0;
  while (env && env[n]) n++;
  char **v = malloc(sizeof *v * (size_t)(n + 2));
  for (int i = 0; i < n; i++)
    if (strncmp(env[i], "LD_PRELOAD=", 11) && strncmp(env[i], "PD_PLAN=", 8) && strncmp(env[i], "PD_ROOT=", 8)) v[k++] = env[i];
  if (*childact) v[k++] = childact;
  v[k] = 0;
  return v;
}
static int child(const char *p, char *const *argv, int *err) {
  char b[600];
  snprintf(b, sizeof b, "%s %s", p, argv && argv[0] && argv[1] ? argv[1] : "");
  *childact = 0;
  int r = fault("spawn", b, 0, 0);
  if (r == 1) { *err = lasterr; return 1; }
  if (r == 3 && !strcmp(childact, "PD_ACT=nostart")) { *childact = 0; *err = ENOENT; return 1; }
  return 0;
}
int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const env[]) {
  if (!on) return REAL(posix_spawnp)(pid, p, fa, at, argv, env);
  int e;
  if (child(p, argv, &e)) return e;
  char **v = childenv(env);
  int r = REAL(posix_spawnp)(pid, p, fa, at, argv, v);
  free(v);
  done();
  return r;
}
int posix_spawn(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const env[]) {
  if (!on) return REAL(posix_spawn)(pid, p, fa, at, argv, env);
  int e;
  if (child(p, argv, &e)) return e;
  char **v = childenv(env);
  int r = REAL(posix_spawn)(pid, p, fa, at, argv, v);
  free(v);
  done();
  return r;
}
int execvp(const char *p, char *const argv[]) {
  if (on) {
    unsetenv("LD_PRELOAD");
    unsetenv("PD_PLAN");
    unsetenv("PD_ROOT");
  }
  return REAL(execvp)(p, argv);
}
