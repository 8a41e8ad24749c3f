/* Storage seam: an LD_PRELOAD library that owns every open/read/readdir the process makes
 * below one scratch directory.  Nothing outside that prefix is touched.  The simulator
 * (dst/faults.py) arms it through the dst_fs_* functions; disarmed it only counts.
 *
 * Operations below the prefix are numbered 0, 1, 2, ... in execution order; a fault is
 * (operation number, kind).  Kinds:
 *   1 EIO  2 EMFILE  3 ENOENT  4 EACCES  5 EINTR (once, then served)
 *   6 short read (serves at most `arg` bytes)  7 early EOF (read returns 0)  8 ENOMEM
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXF 64
static char prefix[1024];
static size_t prefix_len;
static unsigned char tracked[MAXFD];
static long op_count, n_open, n_read, n_dir;
static int nf;
static long f_op[MAXF];
static int f_kind[MAXF];
static long f_arg[MAXF];
static long fired[16];
static uint64_t perm_seed; /* 0: directory order as the kernel gives it */
static long perm_used;
static int all_short; /* >0: every tracked read serves at most this many bytes */

void dst_fs_prefix(const char *p) {
  prefix_len = strlen(p) < sizeof(prefix) ? strlen(p) : 0;
  memcpy(prefix, p, prefix_len);
  prefix[prefix_len] = 0;
}
void dst_fs_reset(void) {
  op_count = n_open = n_read = n_dir = 0;
  nf = 0;
  memset(fired, 0, sizeof fired);
  perm_used = 0;
}
void dst_fs_disarm(void) { nf = 0; all_short = 0; perm_seed = 0; }
int dst_fs_arm(long op, int kind, long arg) {
  if (nf >= MAXF) return -1;
  f_op[nf] = op; f_kind[nf] = kind; f_arg[nf] = arg; nf++;
  return 0;
}
void dst_fs_all_short(int n) { all_short = n; }
void dst_fs_permute(uint64_t seed) { perm_seed = seed; }
long dst_fs_ops(void) { return op_count; }
long dst_fs_opens(void) { return n_open; }
long dst_fs_reads(void) { return n_read; }
long dst_fs_dirs(void) { return n_dir; }
long dst_fs_fired(int kind) { return kind >= 0 && kind < 16 ? fired[kind] : -1; }
long dst_fs_permuted(void) { return perm_used; }

static int below(const char *p) {
  return prefix_len && p && !strncmp(p, prefix, prefix_len) &&
         (p[prefix_len] == '/' || p[prefix_len] == 0);
}
static int kind_errno(int k) {
  switch (k) {
    case 1: return EIO;
    case 2: return EMFILE;
    case 3: return ENOENT;
    case 4: return EACCES;
    case 5: return EINTR;
    case 8: return ENOMEM;
  }
  return 0;
}
/* returns kind (0: none) for this operation and fills *arg */
static int step(long *arg) {
  long me = op_count++;
  for (int i = 0; i < nf; i++)
    if (f_op[i] == me) {
      *arg = f_arg[i];
      return f_kind[i];
    }
  return 0;
}
static int open_hook(const char *path) {
  long arg;
  n_open++;
  int k = step(&arg);
  int e = kind_errno(k);
  if (e) { fired[k]++; errno = e; return -1; }
  return 0;
}

#define REAL(name, type) static type real; if (!real) real = (type)dlsym(RTLD_NEXT, name)

#define OPEN_BODY(name)                                                   \
  mode_t mode = 0;                                                        \
  if (flags & (O_CREAT | __O_TMPFILE)) {                                  \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
  }

int open(const char *path, int flags, ...) {
  typedef int (*T)(const char *, int, ...);
  REAL("open", T);
  OPEN_BODY("open")
  int mine = below(path) && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY);
  if (mine && open_hook(path)) return -1;
  int fd = real(path, flags, mode);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = mine;
  return fd;
}
int open64(const char *path, int flags, ...) {
  typedef int (*T)(const char *, int, ...);
  REAL("open64", T);
  OPEN_BODY("open64")
  int mine = below(path) && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY);
  if (mine && open_hook(path)) return -1;
  int fd = real(path, flags, mode);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = mine;
  return fd;
}
int openat(int dfd, const char *path, int flags, ...) {
  typedef int (*T)(int, const char *, int, ...);
  REAL("openat", T);
  OPEN_BODY("openat")
  int mine = below(path) && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY);
  if (mine && open_hook(path)) return -1;
  int fd = real(dfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = mine;
  return fd;
}
int openat64(int dfd, const char *path, int flags, ...) {
  typedef int (*T)(int, const char *, int, ...);
  REAL("openat64", T);
  OPEN_BODY("openat64")
  int mine = below(path) && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY);
  if (mine && open_hook(path)) return -1;
  int fd = real(dfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = mine;
  return fd;
}
int close(int fd) {
  typedef int (*T)(int);
  REAL("close", T);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
  return real(fd);
}
/* 1: *out is the result, 0: go on with *count bytes */
static int read_hook(size_t *count, ssize_t *out) {
  long arg = 0;
  n_read++;
  int k = step(&arg);
  int e = kind_errno(k);
  if (e) { fired[k]++; errno = e; *out = -1; return 1; }
  if (k == 7) { fired[7]++; *out = 0; return 1; }
  if (k == 6 && arg > 0 && (size_t)arg < *count) { fired[6]++; *count = arg; }
  else if (all_short > 0 && (size_t)all_short < *count) { fired[6]++; *count = all_short; }
  return 0;
}
ssize_t read(int fd, void *buf, size_t count) {
  typedef ssize_t (*T)(int, void *, size_t);
  REAL("read", T);
  ssize_t out;
  if (fd >= 0 && fd < MAXFD && tracked[fd] && read_hook(&count, &out)) return out;
  return real(fd, buf, count);
}
ssize_t pread(int fd, void *buf, size_t count, off_t off) {
  typedef ssize_t (*T)(int, void *, size_t, off_t);
  REAL("pread", T);
  ssize_t out;
  if (fd >= 0 && fd < MAXFD && tracked[fd] && read_hook(&count, &out)) return out;
  return real(fd, buf, count, off);
}
ssize_t pread64(int fd, void *buf, size_t count, off64_t off) {
  typedef ssize_t (*T)(int, void *, size_t, off64_t);
  REAL("pread64", T);
  ssize_t out;
  if (fd >= 0 && fd < MAXFD && tracked[fd] && read_hook(&count, &out)) return out;
  return real(fd, buf, count, off);
}
/* stdio goes through internal calls, so its opens are hooked by name (open faults only) */
FILE *fopen(const char *path, const char *m) {
  typedef FILE *(*T)(const char *, const char *);
  REAL("fopen", T);
  if (below(path) && m && m[0] == 'r' && open_hook(path)) return NULL;
  return real(path, m);
}
FILE *fopen64(const char *path, const char *m) {
  typedef FILE *(*T)(const char *, const char *);
  REAL("fopen64", T);
  if (below(path) && m && m[0] == 'r' && open_hook(path)) return NULL;
  return real(path, m);
}

/* ---- directory enumeration order ---- */
typedef struct {
  DIR *d;
  struct dirent64 *ents;
  int n, pos;
} PermDir;
static PermDir pds[64];
static pthread_mutex_t pd_lock = PTHREAD_MUTEX_INITIALIZER;

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
static int by_name(const void *a, const void *b) {
  return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
static struct dirent64 *(*real_readdir64)(DIR *);

static void slurp(DIR *d) {
  if (!real_readdir64)
    real_readdir64 = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  int cap = 16, n = 0;
  struct dirent64 *e, *v = malloc(cap * sizeof *v);
  while ((e = real_readdir64(d))) {
    if (n == cap) v = realloc(v, (cap *= 2) * sizeof *v);
    memset(&v[n], 0, sizeof *v);
    memcpy(&v[n], e, e->d_reclen < sizeof *v ? e->d_reclen : sizeof *v);
    n++;
  }
  qsort(v, n, sizeof *v, by_name); /* the order depends on nothing but names and the seed */
  uint64_t s = perm_seed;
  for (int i = n - 1; i > 0; i--) {
    s = mix(s);
    int j = s % (uint64_t)(i + 1);
    struct dirent64 t = v[i]; v[i] = v[j]; v[j] = t;
  }
  pthread_mutex_lock(&pd_lock);
  for (int i = 0; i < 64; i++)
    if (!pds[i].d) {
      pds[i].d = d; pds[i].ents = v; pds[i].n = n; pds[i].pos = 0;
      perm_used++;
      v = NULL;
      break;
    }
  pthread_mutex_unlock(&pd_lock);
  free(v);
}
DIR *opendir(const char *path) {
  typedef DIR *(*T)(const char *);
  REAL("opendir", T);
  if (below(path)) {
    long arg;
    n_dir++;
    int k = step(&arg);
    int e = kind_errno(k);
    if (e && k != 5) { fired[k]++; errno = e; return NULL; }
  }
  DIR *d = real(path);
  if (d && perm_seed && below(path)) slurp(d);
  return d;
}
int closedir(DIR *d) {
  typedef int (*T)(DIR *);
  REAL("closedir", T);
  pthread_mutex_lock(&pd_lock);
  for (int i = 0; i < 64; i++)
    if (pds[i].d == d) { free(pds[i].ents); memset(&pds[i], 0, sizeof pds[i]); }
  pthread_mutex_unlock(&pd_lock);
  return real(d);
}
struct dirent64 *readdir64(DIR *d) {
  if (!real_readdir64)
    real_readdir64 = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  for (int i = 0; i < 64; i++)
    if (pds[i].d == d && d) {
      if (pds[i].pos >= pds[i].n) return NULL;
      return &pds[i].ents[pds[i].pos++];
    }
  return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
  typedef void (*T)(DIR *);
  REAL("rewinddir", T);
  for (int i = 0; i < 64; i++)
    if (pds[i].d == d && d) { pds[i].pos = 0; return; }
  real(d);
}
