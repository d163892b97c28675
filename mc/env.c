/* env.c - the library's environment.
 *
 * Every libc call the library makes that touches the outside world is
 * redirected (objcopy --redefine-syms) to an hx_ function here.  The in-memory
 * file system follows POSIX/Linux semantics for the calls used: directories,
 * hard removal of open files, O_APPEND/O_TRUNC/O_EXCL, symbolic links, shared
 * mappings that stay coherent with writes, and fcntl record locks owned by the
 * process and dropped when the process closes any descriptor of the file.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "mc.h"
#include "env_int.h"

/* ------------------------------------------------------------------ */
/* State                                                                */
/* ------------------------------------------------------------------ */

#define NINODE 160
#define NDENT 80
#define NFD 128
#define NMAP 256
#define NLOCK 64
#define INODE_CAP (1u << 20)
#define NAME 256

enum { T_FREE, T_REG, T_DIR, T_LNK };

struct dent { char name[NAME]; int ino; };

struct inode {
  int type;
  int nlink;
  int opens;               /* open descriptors and mappings */
  unsigned mode;
  size_t size;
  size_t synced;           /* this much is on stable storage */
  uint8_t *data;           /* memfd mapping, regular files */
  size_t cap;
  int memfd;
  size_t hiwater;
  int nent, ecap, hint;
  struct dent *ent;
  char target[NAME];
};

struct fdent {
  int used;
  int proc;
  int num;                 /* descriptor number in the process */
  int ino;
  int flags;
  long off;
  int real;
  int special;             /* 1: random device */
  int cloexec;
  uint32_t rnd;
  char path[300];
};

struct mapent { int used; int proc; int ino; void *addr; size_t len; };
struct lockent { int used; int proc; int ofd; int ino; int type; long start, end; };

struct dirstream {
  int proc;
  int real;
  void *rdir;
  int n, i;
  struct dent *ent;
  unsigned char *types;
  struct dirent de;
  char path[300];
};

static struct inode inode[NINODE];
static struct fdent fds[NFD];
static struct mapent maps[NMAP];
static struct lockent locks[NLOCK];
static char cwd[4][20000];
static int curproc[MAXTHREADS + 1];
static long nds;
static struct dirstream *dss[16];
static uint32_t rnd_counter;
uint32_t env_seed;             /* of the random numbers */
long env_clock;                /* microseconds passed */
long env_rnd_flip = -1;        /* this byte of all random ones comes out inverted */
long env_rnd_n;                /* random bytes handed out */

int env_real;
char env_real_root[256];
long env_maxfds = 1 << 20;
int env_aborted_ok;
int env_data_open_max;

void (*env_hook)(const struct sc *sc, struct act *act);
void (*env_yield)(const char *what);
void (*env_crash)(void);

size_t urkel_verify_max_file_size = 0x7ffff000;
size_t urkel_verify_max_open_files = 32;
size_t urkel_verify_write_buffer = 64 << 20;
size_t urkel_verify_read_buffer = 1 << 20;

void
env_limits_default(void) {
  urkel_verify_max_file_size = 0x7ffff000;
  urkel_verify_max_open_files = 32;
  urkel_verify_write_buffer = 64 << 20;
  urkel_verify_read_buffer = 1 << 20;
}

void
env_limits_fast(void) {
  env_limits_default();
  urkel_verify_read_buffer = 8192;
}

char env_out[1 << 16], env_err[1 << 16];
size_t env_out_len, env_err_len;

const char *const sc_names[SC_N] = {
  "open", "read", "pread", "write", "pwrite", "lseek", "fstat", "stat",
  "lstat", "access", "chmod", "truncate", "ftruncate", "rename", "unlink",
  "mkdir", "rmdir", "opendir", "readdir", "closedir", "close", "fcntl",
  "lock", "unlock", "fsync", "mmap", "munmap", "getcwd", "random", "link", "dup"
};

/* ------------------------------------------------------------------ */
/* Sanitizer glue                                                       */
/* ------------------------------------------------------------------ */

#if defined(MC_TSAN)
void __tsan_read_range(void *addr, unsigned long size);
void __tsan_write_range(void *addr, unsigned long size);
void AnnotateIgnoreReadsBegin(const char *f, int l);
void AnnotateIgnoreReadsEnd(const char *f, int l);
void AnnotateIgnoreWritesBegin(const char *f, int l);
void AnnotateIgnoreWritesEnd(const char *f, int l);
#define ENTER() (AnnotateIgnoreReadsBegin("", 0), AnnotateIgnoreWritesBegin("", 0))
#define LEAVE() (AnnotateIgnoreWritesEnd("", 0), AnnotateIgnoreReadsEnd("", 0))
#define LIB_READS(p, n) do { if ((n) > 0) __tsan_read_range((void *)(p), (n)); } while (0)
#define LIB_WRITES(p, n) do { if ((n) > 0) __tsan_write_range((void *)(p), (n)); } while (0)
#elif defined(MC_MSAN)
void __msan_check_mem_is_initialized(const volatile void *x, size_t size);
void __msan_unpoison(const volatile void *a, size_t size);
#define ENTER() ((void)0)
#define LEAVE() ((void)0)
#define LIB_READS(p, n) do { if ((n) > 0) __msan_check_mem_is_initialized((p), (n)); } while (0)
#define LIB_WRITES(p, n) ((void)(p))
#elif defined(MC_ASAN)
void *__asan_region_is_poisoned(void *beg, size_t size);
void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
static void
asan_range(const void *p, size_t n, const char *what) {
  if (n > 0 && __asan_region_is_poisoned((void *)p, n))
    mc_fail("memory: %s %zu bytes at a buffer that is smaller or freed", what, n);
}
#define ENTER() ((void)0)
#define LEAVE() ((void)0)
#define LIB_READS(p, n) asan_range((p), (n), "system call reads")
#define LIB_WRITES(p, n) asan_range((p), (n), "system call writes")
#else
#define ENTER() ((void)0)
#define LEAVE() ((void)0)
#define LIB_READS(p, n) ((void)(p))
#define LIB_WRITES(p, n) ((void)(p))
#endif

void env_enter(void) { ENTER(); }
void env_leave(void) { LEAVE(); }

/* ------------------------------------------------------------------ */
/* Allocator                                                            */
/* ------------------------------------------------------------------ */

static unsigned ATAB = 1u << 17; /* grows */
static int ashift = 40;
struct alloc { void *p; size_t n; int proc; };
static struct alloc *atab;
static unsigned *atouched, natouched; /* slots that are not NULL, perhaps */
static long nallocs;
static size_t nbytes;
#define TOMB ((void *)1)

static unsigned
ahash(void *p) {
  uint64_t x = (uint64_t)(uintptr_t)p >> 4;
  x *= 0x9e3779b97f4a7c15ULL;
  return (x >> ashift) & (ATAB - 1);
}

static void a_new(unsigned size);
static void
a_grow(void) {
  struct alloc *old = atab;
  unsigned n = ATAB, i, k;
  free(atouched);
  a_new(n * 4);
  for (i = 0; i < n; i++) {
    if (old[i].p == NULL || old[i].p == TOMB)
      continue;
    for (k = ahash(old[i].p); atab[k].p != NULL; k = (k + 1) & (ATAB - 1))
      ;
    atab[k] = old[i];
    atouched[natouched++] = k;
  }
  free(old);
}
static void
a_new(unsigned size) {
  ATAB = size;
  ashift = size > 1u << 20 ? 32 : 40;
  atab = calloc(ATAB, sizeof(*atab));
  atouched = calloc(ATAB, sizeof(*atouched));
  if (atab == NULL || atouched == NULL)
    mc_internal("calloc");
  natouched = 0;
}

static void
a_add(void *p, size_t n) {
  unsigned i, k;
  if (nallocs > (long)(ATAB / 4 * 3))
    a_grow();
  i = ahash(p);
  for (k = 0; k < ATAB; k++, i = (i + 1) & (ATAB - 1)) {
    if (atab[i].p == NULL || atab[i].p == TOMB) {
      if (atab[i].p == NULL) {
        if (natouched == ATAB) /* duplicates: rebuild */
          for (natouched = k = 0; k < ATAB; k++)
            if (atab[k].p != NULL)
              atouched[natouched++] = k;
        atouched[natouched++] = i;
      }
      atab[i].p = p;
      atab[i].n = n;
      atab[i].proc = env_proc();
      nallocs += 1;
      nbytes += n;
      if (nbytes > (3UL << 30))
        mc_fail("more than 3 GB of memory in use");
      return;
    }
  }
  mc_internal("allocation table full");
}

static struct alloc *
a_find(void *p) {
  unsigned i = ahash(p), k;
  for (k = 0; k < ATAB; k++, i = (i + 1) & (ATAB - 1)) {
    if (atab[i].p == NULL)
      return NULL;
    if (atab[i].p == p)
      return &atab[i];
  }
  return NULL;
}

static void
a_del(struct alloc *a) {
  unsigned i = a - atab;
  nallocs -= 1;
  nbytes -= a->n;
  if (atab[(i + 1) & (ATAB - 1)].p == NULL) {
    a->p = NULL;
    while (atab[(i - 1) & (ATAB - 1)].p == TOMB) {
      i = (i - 1) & (ATAB - 1);
      atab[i].p = NULL;
    }
  } else {
    a->p = TOMB;
  }
}

void *
hx_malloc(size_t n) {
  void *p = malloc(n);
  ENTER();
  if (p)
    a_add(p, n);
  LEAVE();
  return p;
}

void *
hx_calloc(size_t a, size_t b) {
  void *p = calloc(a, b);
  ENTER();
  if (p)
    a_add(p, a * b);
  LEAVE();
  return p;
}

void
hx_free(void *p) {
  struct alloc *a;
  if (p == NULL)
    return;
  ENTER();
  a = a_find(p);
  if (a == NULL) {
    LEAVE();
#if defined(MC_ASAN) || defined(MC_TSAN) || defined(MC_MSAN)
    free(p); /* the sanitizer explains a double free */
#endif
    mc_fail("free of a pointer that is not allocated (double free?)");
  }
  a_del(a);
  LEAVE();
  free(p);
}

void *
hx_realloc(void *p, size_t n) {
  struct alloc *a;
  void *q;
  if (p == NULL)
    return hx_malloc(n);
  ENTER();
  a = a_find(p);
  if (a == NULL) {
    LEAVE();
    mc_fail("realloc of a pointer that is not allocated");
  }
  a_del(a);
  LEAVE();
  q = realloc(p, n);
  ENTER();
  if (q)
    a_add(q, n);
  else if (n != 0)
    a_add(p, n);
  LEAVE();
  return q;
}

void *hx_reallocarray(void *p, size_t a, size_t b) { return hx_realloc(p, a * b); }

int
hx_posix_memalign(void **out, size_t al, size_t n) {
  void *p;
  int r = posix_memalign(&p, al, n);
  if (r)
    return r;
  ENTER();
  a_add(p, n);
  LEAVE();
  *out = p;
  return 0;
}

void *
hx_aligned_alloc(size_t al, size_t n) {
  void *p = NULL;
  return hx_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n) ? NULL : p;
}

void *hx_memalign(size_t al, size_t n) { return hx_aligned_alloc(al, n); }

int
hx_vasprintf(char **out, const char *fmt, va_list ap) {
  va_list aq;
  int n;
  va_copy(aq, ap);
  n = vsnprintf(NULL, 0, fmt, aq);
  va_end(aq);
  *out = hx_malloc(n + 1);
  return vsnprintf(*out, n + 1, fmt, ap);
}

int
hx_asprintf(char **out, const char *fmt, ...) {
  va_list ap;
  int n;
  va_start(ap, fmt);
  n = hx_vasprintf(out, fmt, ap);
  va_end(ap);
  return n;
}

char *
hx_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = hx_malloc(n);
  if (p)
    memcpy(p, s, n);
  return p;
}

char *
hx_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  char *p = hx_malloc(n + 1);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}

void
hx_abort(void) {
  if (env_err_len > 0)
    mc_fail("the library aborted: %s", env_err);
  mc_fail("the library aborted");
}

void
hx___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  (void)fn;
  mc_fail("the library aborted: %s:%u: %s", f, l, e);
}

/* Frees what the process allocated: its memory goes away with it. */
static void
free_proc_memory(int proc) {
  unsigned i, k;
  for (k = 0; k < natouched && nallocs > 0; k++) {
    i = atouched[k];
    if (atab[i].p != NULL && atab[i].p != TOMB
        && (proc < 0 || atab[i].proc == proc)) {
      void *p = atab[i].p;
      nallocs -= 1;
      nbytes -= atab[i].n;
      atab[i].p = TOMB;
      free(p);
    }
  }
  if (nallocs == 0) {
    for (k = 0; k < natouched; k++)
      atab[atouched[k]].p = NULL;
    natouched = 0;
  }
}

/* ------------------------------------------------------------------ */
/* Processes                                                            */
/* ------------------------------------------------------------------ */

int env_proc(void) { return curproc[sched_tid() + 1]; }

/*
 * The library's and the tool's own static data.  Each simulated process has
 * its own, fresh at every execution and whenever the process ends.  (check.py
 * gathers it into two sections of its own.)
 */

extern char __start_mcdata[] __attribute__((weak, visibility("hidden")));
extern char __stop_mcdata[] __attribute__((weak, visibility("hidden")));
extern char __start_mcbss[] __attribute__((weak, visibility("hidden")));
extern char __stop_mcbss[] __attribute__((weak, visibility("hidden")));

#define NPROC 4
static unsigned char *st_fresh, *st_image[NPROC];
static size_t st_n[2];
static int st_loaded;

#if defined(MC_MSAN)
__attribute__((no_sanitize("memory")))
#endif
static void
st_copy(volatile unsigned char *d, const volatile unsigned char *s, size_t n) {
  for (; n >= 8 && (((uintptr_t)d | (uintptr_t)s) & 7) == 0; n -= 8, d += 8, s += 8)
    *(volatile uint64_t *)d = *(const volatile uint64_t *)s;
  while (n--)
    *d++ = *s++;
}

static void
st_save(unsigned char *img) {
  st_copy(img, (unsigned char *)__start_mcdata, st_n[0]);
  st_copy(img + st_n[0], (unsigned char *)__start_mcbss, st_n[1]);
}

static void
st_load(const unsigned char *img) {
  st_copy((unsigned char *)__start_mcdata, img, st_n[0]);
  st_copy((unsigned char *)__start_mcbss, img + st_n[0], st_n[1]);
}

static void
st_init(void) {
  int i;
  if (st_fresh != NULL)
    return;
  st_n[0] = __stop_mcdata - __start_mcdata;
  st_n[1] = __stop_mcbss - __start_mcbss;
  st_fresh = malloc(st_n[0] + st_n[1] + 1);
  for (i = 0; i < NPROC; i++)
    st_image[i] = malloc(st_n[0] + st_n[1] + 1);
  st_save(st_fresh);
  for (i = 0; i < NPROC; i++)
    st_copy(st_image[i], st_fresh, st_n[0] + st_n[1]);
}

/* Fresh static data for one process (or all). */
static void
st_reset(int p) {
  int i;
  st_init();
  for (i = 0; i < NPROC; i++)
    if (p < 0 || i == p)
      st_copy(st_image[i], st_fresh, st_n[0] + st_n[1]);
  if (p < 0)
    st_loaded = env_proc();
  if (p < 0 || p == st_loaded)
    st_load(st_fresh);
}

/* Puts the running process's static data in place. */
void
env_statics(void) {
  int p = env_proc();
  if (p == st_loaded || st_fresh == NULL)
    return;
  st_save(st_image[st_loaded]);
  st_loaded = p;
  st_load(st_image[p]);
}

void env_statics_reset(void) { st_reset(-1); }

int
env_is_static(const void *p) {
  const char *c = p;
  return (c >= __start_mcdata && c < __stop_mcdata) || (c >= __start_mcbss && c < __stop_mcbss);
}

void
env_set_proc(int p) {
  curproc[sched_tid() + 1] = p;
  env_statics();
}

/* ------------------------------------------------------------------ */
/* Inodes and paths                                                     */
/* ------------------------------------------------------------------ */

static struct inode *
ino_alloc(int type) {
  int i;
  for (i = 1; i < NINODE; i++) {
    if (inode[i].type == T_FREE) {
      struct inode *n = &inode[i];
      n->type = type;
      n->nlink = 0;
      n->opens = 0;
      n->size = 0;
      n->synced = 0;
      n->nent = 0;
      n->mode = 0;
      if (type == T_REG && n->data == NULL) {
        n->memfd = memfd_create("mc", MFD_CLOEXEC);
        if (n->memfd < 0 || ftruncate(n->memfd, INODE_CAP) != 0)
          mc_internal("memfd");
        n->cap = INODE_CAP;
        n->data = mmap(NULL, n->cap, PROT_READ | PROT_WRITE, MAP_SHARED, n->memfd, 0);
        if (n->data == MAP_FAILED)
          mc_internal("mmap");
      }
      if (type == T_DIR && n->ent == NULL) {
        n->ent = malloc(sizeof(struct dent) * NDENT);
        n->ecap = NDENT;
        if (n->ent == NULL)
          mc_internal("malloc");
      }
      return n;
    }
  }
  mc_internal("out of inodes");
}

static void
ino_grow(struct inode *n, size_t need) {
  size_t cap = n->cap;
  if (need <= cap)
    return;
  while (cap < need)
    cap *= 2;
  if (cap > (1ul << 33))
    mc_internal("file too large for the in-memory file system");
  munmap(n->data, n->cap);
  if (ftruncate(n->memfd, cap) != 0)
    mc_internal("ftruncate");
  n->data = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_SHARED, n->memfd, 0);
  if (n->data == MAP_FAILED)
    mc_internal("mmap");
  n->cap = cap;
}

/* Zeroes a range; a large one becomes a hole. */
static void
ino_zero(struct inode *n, size_t from, size_t len) {
  if (len < (4u << 20))
    memset(n->data + from, 0, len);
  else if (fallocate(n->memfd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, from, len) != 0)
    mc_internal("fallocate");
}

static void
ino_free(struct inode *n) {
  if (n->data && n->hiwater > 0) {
    ino_zero(n, 0, n->hiwater);
    n->hiwater = 0;
  }
  n->type = T_FREE;
  n->size = 0;
  n->nent = 0;
}

static void
ino_put(struct inode *n) {
  if (n->type != T_FREE && n->nlink == 0 && n->opens == 0)
    ino_free(n);
}

static struct dent *
dir_find(struct inode *d, const char *name) {
  /* Names are unique: where to begin does not matter. */
  int i, k = d->hint < d->nent ? d->hint : 0;
  for (i = 0; i < d->nent; i++, k++) {
    if (k == d->nent)
      k = 0;
    if (strcmp(d->ent[k].name, name) == 0) {
      d->hint = k;
      return &d->ent[k];
    }
  }
  return NULL;
}

static void
dir_add(struct inode *d, const char *name, struct inode *n) {
  if (d->nent == d->ecap) {
    d->ecap *= 2;
    d->ent = realloc(d->ent, sizeof(struct dent) * d->ecap);
    if (d->ent == NULL)
      mc_internal("malloc");
  }
  snprintf(d->ent[d->nent].name, NAME, "%s", name);
  d->ent[d->nent].ino = n - inode;
  d->nent += 1;
  n->nlink += 1;
}

static void
dir_del(struct inode *d, const char *name) {
  struct dent *e = dir_find(d, name);
  struct inode *n = &inode[e->ino];
  *e = d->ent[d->nent - 1];
  d->nent -= 1;
  n->nlink -= 1;
  ino_put(n);
}

/* Resolves; on success *dir and name give the parent, *out the inode or NULL. */
static int
walk(const char *path, int follow, struct inode **dir, char *name,
     struct inode **out, int depth) {
  struct inode *d = &inode[1];
  const char *s = path;
  char full[24200];

  *out = NULL;
  *dir = NULL;
  if (path == NULL)
    return EFAULT;
  if (path[0] == 0)
    return ENOENT;
  if (strlen(path) >= 4096)
    return ENAMETOOLONG;
  if (depth > 8)
    return ELOOP;
  if (path[0] != '/') {
    snprintf(full, sizeof(full), "%s/%s", cwd[env_proc()], path);
    s = full;
  }
  for (;;) {
    char comp[NAME];
    size_t n = 0;
    int last, trail;
    struct dent *e;
    while (*s == '/')
      s += 1;
    if (*s == 0) {
      /* The directory itself. */
      *dir = NULL;
      *out = d;
      name[0] = 0;
      return 0;
    }
    while (s[n] && s[n] != '/')
      n += 1;
    if (n >= NAME)
      return ENAMETOOLONG;
    memcpy(comp, s, n);
    comp[n] = 0;
    s += n;
    trail = *s == '/';
    {
      const char *t = s;
      while (*t == '/')
        t += 1;
      last = *t == 0;
    }
    if (d->type != T_DIR)
      return ENOTDIR;
    if (strcmp(comp, ".") == 0) {
      if (last) {
        *out = d;
        name[0] = 0;
        return 0;
      }
      continue;
    }
    if (strcmp(comp, "..") == 0) {
      int i, j;
      struct inode *up = &inode[1];
      for (i = 1; i < NINODE; i++) {
        if (inode[i].type != T_DIR)
          continue;
        for (j = 0; j < inode[i].nent; j++)
          if (&inode[inode[i].ent[j].ino] == d)
            up = &inode[i];
      }
      d = up;
      if (last) {
        *out = d;
        name[0] = 0;
        return 0;
      }
      continue;
    }
    e = dir_find(d, comp);
    if (last && !(e && inode[e->ino].type == T_LNK && (follow || trail))) {
      *dir = d;
      snprintf(name, NAME, "%s", comp);
      *out = e ? &inode[e->ino] : NULL;
      if (trail && *out && (*out)->type != T_DIR)
        return ENOTDIR;
      return 0;
    }
    if (e == NULL)
      return ENOENT;
    if (inode[e->ino].type == T_LNK) {
      char rest[8600];
      const char *tgt = inode[e->ino].target;
      if (tgt[0] == '/')
        snprintf(rest, sizeof(rest), "%s%s", tgt, s);
      else {
        /* Relative to the directory of the link. */
        size_t used = s - n - (path[0] == '/' ? path : full);
        const char *base = path[0] == '/' ? path : full;
        snprintf(rest, sizeof(rest), "%.*s%s%s", (int)used, base, tgt, s);
      }
      return walk(rest, follow, dir, name, out, depth + 1);
    }
    d = &inode[e->ino];
  }
}

static int
walk_get(const char *path, int follow, struct inode **out) {
  struct inode *d;
  char name[NAME];
  int e = walk(path, follow, &d, name, out, 0);
  if (e)
    return e;
  if (*out == NULL)
    return ENOENT;
  return 0;
}

/* ------------------------------------------------------------------ */
/* Call plumbing                                                        */
/* ------------------------------------------------------------------ */

static struct act
sys(enum sckind kind, int mutating, const char *path, size_t len, int flags) {
  struct sc sc;
  struct act act;
  act.err = 0;
  act.shortn = -1;
  act.crash = 0;
  if (env_yield || env_hook)
    mc_trans(1);
  if (env_yield)
    env_yield(sc_names[kind]);
  if (env_hook) {
    sc.kind = kind;
    sc.mutating = mutating;
    sc.path = path ? path : "";
    sc.len = len;
    sc.flags = flags;
    env_hook(&sc, &act);
    if (mc_verbose && (act.err || act.shortn >= 0 || act.crash))
      mc_trace("      env: %s(%s) -> err=%d short=%zd crash=%d",
               sc_names[kind], sc.path, act.err, act.shortn, act.crash);
  }
  if (mc_verbose > 1)
    mc_trace("      sys: [%d] %s(%s) len=%zu", env_proc(), sc_names[kind], path ? path : "", len);
  if (act.crash == 1)
    env_crash();
  return act;
}

#define FAIL(e) do { errno = (e); LEAVE(); return -1; } while (0)
#define FAILP(e) do { errno = (e); LEAVE(); return NULL; } while (0)
#define AFTER(a) do { if ((a).crash == 2) env_crash(); } while (0)

/* The path below env_real_root: dots are resolved here, so that nothing can
   lead out of it. */
static const char *
rpath(const char *path, char *buf) {
  char full[24200], *out;
  const char *s;
  size_t n, base;
  if (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0)
    return path;
  if (path[0] == 0)
    return path;
  if (path[0] == '/')
    snprintf(full, sizeof(full), "%s", path);
  else
    snprintf(full, sizeof(full), "%s/%s", cwd[env_proc()], path);
  base = snprintf(buf, 9000, "%s", env_real_root);
  if (base == 0)
    mc_internal("no root");
  out = buf + base;
  for (s = full; *s; s += n) {
    while (*s == '/')
      s += 1;
    n = strcspn(s, "/");
    if (n == 2 && s[0] == '.' && s[1] == '.') {
      while (out > buf + base && *out != '/')
        out -= 1;
      *out = 0;
    } else if (n > 0 && !(n == 1 && s[0] == '.')) {
      if (out + n + 2 > buf + 9000)
        mc_internal("path too long");
      *out = '/';
      memcpy(out + 1, s, n);
      out += n + 1;
      *out = 0;
    }
  }
  if (full[0] && full[strlen(full) - 1] == '/')
    strcpy(out, "/");
  return buf;
}

static int
ent_fd(int e) {
  return fds[e].num;
}

static struct fdent *
get_fd(int fd) {
  int p = env_proc(), i;
  for (i = 0; i < NFD; i++) {
    if (fds[i].used && fds[i].proc == p && fds[i].num == fd)
      return &fds[i];
  }
  return NULL;
}

static int
new_fd(void) {
  int i, p = env_proc(), n, cnt = 0, slot = -1;
  unsigned char taken[NFD + 1] = {0};
  for (i = 0; i < NFD; i++) {
    if (fds[i].used && fds[i].proc == p) {
      cnt += 1;
      if (fds[i].num - 1000 <= NFD)
        taken[fds[i].num - 1000] = 1;
    }
    if (!fds[i].used && slot < 0)
      slot = i;
  }
  if (slot < 0)
    mc_internal("out of descriptors");
  if (cnt >= env_maxfds)
    return -1;
  for (n = 1000; taken[n - 1000]; n++)
    ;
  memset(&fds[slot], 0, sizeof(fds[slot]));
  fds[slot].used = 1;
  fds[slot].proc = p;
  fds[slot].num = n;
  fds[slot].real = -1;
  return slot;
}

static int
is_data_path(const char *p) {
  const char *b = strrchr(p, '/');
  int i;
  b = b ? b + 1 : p;
  for (i = 0; i < 10; i++)
    if (b[i] < '0' || b[i] > '9')
      return 0;
  return b[10] == 0;
}

int
env_open_data_files(void) {
  int i, n = 0;
  char seen[NINODE] = {0};
  for (i = 0; i < NFD; i++)
    if (fds[i].used && !fds[i].special && is_data_path(fds[i].path) && fds[i].ino)
      seen[fds[i].ino] = 1;
  for (i = 0; i < NMAP; i++)
    if (maps[i].used && maps[i].ino)
      seen[maps[i].ino] = 1;
  for (i = 0; i < NINODE; i++)
    n += seen[i];
  return n;
}

static void
drop_locks(int proc, int ino, int ofd) {
  int i;
  for (i = 0; i < NLOCK; i++) {
    if (!locks[i].used)
      continue;
    if (locks[i].ofd >= 0) {
      if (locks[i].ofd == ofd)
        locks[i].used = 0;
    } else if (locks[i].proc == proc && locks[i].ino == ino) {
      locks[i].used = 0;
    }
  }
}

static void
fd_close(struct fdent *f) {
  if (f->real >= 0)
    close(f->real);
  else if (!f->special) {
    drop_locks(f->proc, f->ino, f - fds);
    inode[f->ino].opens -= 1;
    ino_put(&inode[f->ino]);
  }
  f->used = 0;
}

/* ------------------------------------------------------------------ */
/* Files                                                                */
/* ------------------------------------------------------------------ */

static int
do_open(const char *path, int flags, unsigned mode) {
  struct act a;
  struct inode *d, *n;
  char name[NAME];
  int e, i, mut;
  struct fdent *f;

  ENTER();
  LIB_READS(path, strlen(path) + 1);
  mut = 0;
  if (!env_real && (flags & (O_CREAT | O_TRUNC))) {
    if (walk(path, 1, &d, name, &n, 0) == 0) {
      if (n == NULL)
        mut = (flags & O_CREAT) != 0;
      else
        mut = (flags & O_TRUNC) && n->size > 0;
    }
  }
  a = sys(SC_OPEN, mut, path, 0, flags);
  if (a.err)
    FAIL(a.err);

  if (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0) {
    i = new_fd();
    if (i < 0)
      FAIL(EMFILE);
    f = &fds[i];
    f->special = 1;
    f->rnd = ++rnd_counter;
    snprintf(f->path, sizeof(f->path), "%s", path);
    AFTER(a);
    LEAVE();
    return ent_fd(i);
  }

  if (env_real) {
    char buf[9000];
    int r = open(rpath(path, buf), flags | O_CLOEXEC, mode);
    if (r < 0)
      FAIL(errno);
    i = new_fd();
    if (i < 0) {
      close(r);
      FAIL(EMFILE);
    }
    f = &fds[i];
    f->real = r;
    f->flags = flags;
    snprintf(f->path, sizeof(f->path), "%s", path);
    LEAVE();
    return ent_fd(i);
  }

  if ((flags & O_CREAT) && path[0] && path[strlen(path) - 1] == '/') {
    char cut[8192];
    snprintf(cut, sizeof(cut), "%s", path);
    for (i = strlen(cut); i > 1 && cut[i - 1] == '/'; i--)
      cut[i - 1] = 0;
    e = walk(cut, 0, &d, name, &n, 0);
    FAIL(e ? e : EISDIR);
  }
  e = walk(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)),
           &d, name, &n, 0);
  if (e)
    FAIL(e);
  if (n == NULL) {
    if (!(flags & O_CREAT))
      FAIL(ENOENT);
    if (path[strlen(path) - 1] == '/')
      FAIL(EISDIR);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL))
      FAIL(EEXIST);
    if (n->type == T_LNK)
      FAIL(ELOOP);
    if (n->type == T_DIR && (flags & O_ACCMODE) != O_RDONLY)
      FAIL(EISDIR);
    if (n->type == T_DIR && (flags & O_CREAT))
      FAIL(EISDIR);
    if (n->type != T_DIR && (flags & O_DIRECTORY))
      FAIL(ENOTDIR);
  }
  i = new_fd();
  if (i < 0)
    FAIL(EMFILE);
  if (n == NULL) {
    n = ino_alloc(T_REG);
    n->mode = mode & 0777 & ~022;
    dir_add(d, name, n);
  } else if ((flags & O_TRUNC) && n->type == T_REG
             && (flags & O_ACCMODE) != O_RDONLY) {
    memset(n->data, 0, n->size);
    n->size = 0;
  }
  f = &fds[i];
  f->ino = n - inode;
  f->flags = flags;
  n->opens += 1;
  snprintf(f->path, sizeof(f->path), "%s", path);
  {
    int m = env_open_data_files();
    if (m > env_data_open_max)
      env_data_open_max = m;
  }
  AFTER(a);
  LEAVE();
  return ent_fd(i);
}

int
hx_open(const char *path, int flags, ...) {
  unsigned mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, unsigned);
    va_end(ap);
  }
  return do_open(path, flags, mode);
}

int
hx_openat(int dfd, const char *path, int flags, ...) {
  unsigned mode = 0;
  char buf[9000];
  struct fdent *f;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, unsigned);
    va_end(ap);
  }
  if (dfd == AT_FDCWD || path[0] == '/')
    return do_open(path, flags, mode);
  f = get_fd(dfd);
  if (f == NULL) {
    errno = EBADF;
    return -1;
  }
  snprintf(buf, sizeof(buf), "%s/%s", f->path, path);
  return do_open(buf, flags, mode);
}

int hx_creat(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int
hx_close(int fd) {
  struct fdent *f;
  struct act a;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_CLOSE, 0, f ? f->path : "", 0, 0);
  if (f == NULL) {
    if (fd == -1)
      FAIL(EBADF);
    mc_fail("close of descriptor %d, which is not open", fd);
  }
  /* As on Linux the descriptor is gone even when close fails. */
  fd_close(f);
  AFTER(a);
  if (a.err)
    FAIL(a.err);
  LEAVE();
  return 0;
}

static ssize_t
do_read(enum sckind k, int fd, void *buf, size_t len, long pos) {
  struct fdent *f;
  struct act a;
  struct inode *n;
  size_t got;
  ENTER();
  f = get_fd(fd);
  a = sys(k, 0, f ? f->path : "", len, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  if (a.shortn >= 0 && (size_t)a.shortn < len)
    len = a.shortn;
  if (f->special) {
    size_t i;
    uint32_t x = f->rnd * 2654435761u + 12345;
    LIB_WRITES(buf, len);
    for (i = 0; i < len; i++) {
      x = x * 1664525u + 1013904223u;
      ((uint8_t *)buf)[i] = x >> 24 ^ (env_rnd_n++ == env_rnd_flip ? 0xff : 0);
    }
    LEAVE();
    return len;
  }
  if (f->real >= 0) {
    ssize_t r;
    LIB_WRITES(buf, len);
    r = k == SC_PREAD ? pread(f->real, buf, len, pos) : read(f->real, buf, len);
    LEAVE();
    return r;
  }
  n = &inode[f->ino];
  if (n->type == T_DIR)
    FAIL(EISDIR);
  if ((f->flags & O_ACCMODE) == O_WRONLY)
    FAIL(EBADF);
  if (pos < 0 && k == SC_PREAD)
    FAIL(EINVAL);
  if (k == SC_READ)
    pos = f->off;
  got = 0;
  if ((size_t)pos < n->size) {
    got = n->size - pos;
    if (got > len)
      got = len;
    LIB_WRITES(buf, got);
    memcpy(buf, n->data + pos, got);
  }
  if (k == SC_READ)
    f->off += got;
  LEAVE();
  return got;
}

ssize_t hx_read(int fd, void *b, size_t n) { return do_read(SC_READ, fd, b, n, 0); }
ssize_t hx_pread(int fd, void *b, size_t n, off_t o) { return do_read(SC_PREAD, fd, b, n, o); }

static ssize_t
do_write(enum sckind k, int fd, const void *buf, size_t len, long pos) {
  struct fdent *f;
  struct act a;
  struct inode *n;
  ENTER();
  f = get_fd(fd);
  a = sys(k, len > 0, f ? f->path : "", len, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  LIB_READS(buf, len);
  if (a.shortn >= 0 && (size_t)a.shortn < len)
    len = a.shortn;
  if (f->special)
    FAIL(EBADF);
  if (f->real >= 0) {
    ssize_t r = k == SC_PWRITE ? pwrite(f->real, buf, len, pos) : write(f->real, buf, len);
    LEAVE();
    return r;
  }
  n = &inode[f->ino];
  if ((f->flags & O_ACCMODE) == O_RDONLY)
    FAIL(EBADF);
  if (k == SC_WRITE)
    pos = f->off;
  if (f->flags & O_APPEND)
    pos = n->size;
  if (pos < 0)
    FAIL(EINVAL);
  if (len > 0) {
    ino_grow(n, pos + len);
    memcpy(n->data + pos, buf, len);
    if ((size_t)pos < n->synced)
      n->synced = pos;
    if (pos + len > n->size)
      n->size = pos + len;
    if (n->size > n->hiwater)
      n->hiwater = n->size;
  }
  if (k == SC_WRITE)
    f->off = pos + len;
  AFTER(a);
  LEAVE();
  return len;
}

ssize_t hx_write(int fd, const void *b, size_t n) { return do_write(SC_WRITE, fd, b, n, 0); }
ssize_t hx_pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(SC_PWRITE, fd, b, n, o); }

static ssize_t
do_iov(int wr, enum sckind k, int fd, const struct iovec *v, int c, long pos) {
  ssize_t tot = 0;
  int i;
  for (i = 0; i < c; i++) {
    ssize_t r = wr ? do_write(k, fd, v[i].iov_base, v[i].iov_len, pos)
                   : do_read(k, fd, v[i].iov_base, v[i].iov_len, pos);
    if (r < 0)
      return tot ? tot : -1;
    tot += r;
    pos += r;
    if ((size_t)r < v[i].iov_len)
      break;
  }
  return tot;
}

ssize_t hx_writev(int fd, const struct iovec *v, int c) { return do_iov(1, SC_WRITE, fd, v, c, 0); }
ssize_t hx_readv(int fd, const struct iovec *v, int c) { return do_iov(0, SC_READ, fd, v, c, 0); }
ssize_t hx_pwritev(int fd, const struct iovec *v, int c, off_t o) { return do_iov(1, SC_PWRITE, fd, v, c, o); }
ssize_t hx_preadv(int fd, const struct iovec *v, int c, off_t o) { return do_iov(0, SC_PREAD, fd, v, c, o); }

off_t
hx_lseek(int fd, off_t off, int wh) {
  struct fdent *f;
  struct act a;
  long base = 0;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_LSEEK, 0, f ? f->path : "", 0, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  if (f->real >= 0) {
    off_t r = lseek(f->real, off, wh);
    LEAVE();
    return r;
  }
  if (wh == SEEK_CUR)
    base = f->off;
  else if (wh == SEEK_END)
    base = inode[f->ino].size;
  else if (wh != SEEK_SET)
    FAIL(EINVAL);
  if (base + off < 0)
    FAIL(EINVAL);
  f->off = base + off;
  LEAVE();
  return f->off;
}

static void
fill_stat(struct inode *n, struct stat *st) {
  LIB_WRITES(st, sizeof(*st));
  memset(st, 0, sizeof(*st));
  st->st_dev = 77;
  st->st_ino = n - inode;
  st->st_nlink = n->nlink;
  st->st_size = n->type == T_DIR ? 4096 : (long)n->size;
  st->st_mode = n->mode | (n->type == T_DIR ? S_IFDIR : n->type == T_LNK ? S_IFLNK : S_IFREG);
  st->st_blksize = 4096;
  st->st_blocks = (n->size + 511) / 512;
}

int
hx_fstat(int fd, struct stat *st) {
  struct fdent *f;
  struct act a;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_FSTAT, 0, f ? f->path : "", 0, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  if (f->real >= 0) {
    int r = fstat(f->real, st);
    LEAVE();
    return r;
  }
  if (f->special) {
    memset(st, 0, sizeof(*st));
    st->st_mode = S_IFCHR | 0666;
  } else {
    fill_stat(&inode[f->ino], st);
  }
  LEAVE();
  return 0;
}

static int
do_stat(enum sckind k, const char *path, struct stat *st, int follow) {
  struct act a;
  struct inode *n;
  int e;
  ENTER();
  LIB_READS(path, strlen(path) + 1);
  a = sys(k, 0, path, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    int r = follow ? stat(rpath(path, buf), st) : lstat(rpath(path, buf), st);
    LEAVE();
    return r;
  }
  e = walk_get(path, follow, &n);
  if (e)
    FAIL(e);
  fill_stat(n, st);
  LEAVE();
  return 0;
}

int hx_stat(const char *p, struct stat *st) { return do_stat(SC_STAT, p, st, 1); }
int hx_lstat(const char *p, struct stat *st) { return do_stat(SC_LSTAT, p, st, 0); }
int
hx_fstatat(int d, const char *p, struct stat *st, int fl) {
  char buf[9000];
  struct fdent *f;
  if (d == AT_FDCWD || p[0] == '/')
    return do_stat(SC_STAT, p, st, !(fl & AT_SYMLINK_NOFOLLOW));
  f = get_fd(d);
  if (f == NULL) {
    errno = EBADF;
    return -1;
  }
  snprintf(buf, sizeof(buf), "%s/%s", f->path, p);
  return do_stat(SC_STAT, buf, st, !(fl & AT_SYMLINK_NOFOLLOW));
}

int
hx_access(const char *p, int m) {
  struct act a;
  struct inode *n;
  int e;
  (void)m;
  ENTER();
  a = sys(SC_ACCESS, 0, p, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    e = access(rpath(p, buf), m);
    LEAVE();
    return e;
  }
  e = walk_get(p, 1, &n);
  if (e)
    FAIL(e);
  LEAVE();
  return 0;
}

int hx_faccessat(int d, const char *p, int m, int fl) { (void)d; (void)fl; return hx_access(p, m); }

int
hx_chmod(const char *p, mode_t m) {
  struct act a;
  struct inode *n;
  int e;
  ENTER();
  a = sys(SC_CHMOD, 1, p, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    e = chmod(rpath(p, buf), m);
    LEAVE();
    return e;
  }
  e = walk_get(p, 1, &n);
  if (e)
    FAIL(e);
  n->mode = m & 07777;
  AFTER(a);
  LEAVE();
  return 0;
}

int
hx_fchmod(int fd, mode_t m) {
  struct fdent *f = get_fd(fd);
  if (f == NULL) {
    errno = EBADF;
    return -1;
  }
  if (f->real < 0 && !f->special)
    inode[f->ino].mode = m & 07777;
  return 0;
}

static void
ino_trunc(struct inode *n, long len) {
  if ((size_t)len < n->size) {
    ino_zero(n, len, n->size - len);
  } else {
    ino_grow(n, len);
    if ((size_t)len > n->hiwater)
      n->hiwater = len;
  }
  n->size = len;
  if (n->synced > n->size)
    n->synced = n->size;
}

int
hx_truncate(const char *p, off_t len) {
  struct act a;
  struct inode *n;
  int e;
  ENTER();
  a = sys(SC_TRUNCATE, 1, p, len, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    e = truncate(rpath(p, buf), len);
    LEAVE();
    return e;
  }
  e = walk_get(p, 1, &n);
  if (e)
    FAIL(e);
  if (n->type != T_REG)
    FAIL(EISDIR);
  if (len < 0)
    FAIL(EINVAL);
  ino_trunc(n, len);
  AFTER(a);
  LEAVE();
  return 0;
}

int
hx_ftruncate(int fd, off_t len) {
  struct act a;
  struct fdent *f;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_FTRUNCATE, f && f->real < 0 && !f->special && (size_t)len != inode[f->ino].size,
          f ? f->path : "", len, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  if (f->real >= 0) {
    int r = ftruncate(f->real, len);
    LEAVE();
    return r;
  }
  if ((f->flags & O_ACCMODE) == O_RDONLY || len < 0)
    FAIL(EINVAL);
  ino_trunc(&inode[f->ino], len);
  AFTER(a);
  LEAVE();
  return 0;
}

/* Without trailing separators. */
static const char *
chop(const char *path, char *buf) {
  size_t n = strlen(path);
  if (n == 0 || n >= 8000 || path[n - 1] != '/')
    return path;
  while (n > 1 && path[n - 1] == '/')
    n -= 1;
  memcpy(buf, path, n);
  buf[n] = 0;
  return buf;
}

/* Is a the directory d or above it? */
static int
dir_above(struct inode *a, struct inode *d, int depth) {
  int i;
  if (a == d)
    return 1;
  if (a->type != T_DIR || depth > 20)
    return 0;
  for (i = 0; i < a->nent; i++)
    if (inode[a->ent[i].ino].type == T_DIR && dir_above(&inode[a->ent[i].ino], d, depth + 1))
      return 1;
  return 0;
}

int
hx_rename(const char *from, const char *to) {
  struct act a;
  struct inode *d1, *d2, *n1, *n2;
  char m1[NAME], m2[NAME], c1[8192], c2[8192];
  int e;
  ENTER();
  a = sys(SC_RENAME, 1, from, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char b1[9000], b2[9000];
    e = rename(rpath(from, b1), rpath(to, b2));
    LEAVE();
    return e;
  }
  e = walk(chop(from, c1), 0, &d1, m1, &n1, 0);
  if (e)
    FAIL(e);
  if (n1 == NULL || d1 == NULL)
    FAIL(ENOENT);
  e = walk(chop(to, c2), 0, &d2, m2, &n2, 0);
  if (e)
    FAIL(e);
  if (d2 == NULL)
    FAIL(EBUSY);
  if (n1->type != T_DIR && (chop(from, c1) != from || chop(to, c2) != to))
    FAIL(ENOTDIR);
  if (n1->type == T_DIR && dir_above(n1, d2, 0))
    FAIL(EINVAL);
  if (n2 && n2->type == T_DIR && dir_above(n2, d1, 0))
    FAIL(ENOTEMPTY);
  if (n2 == n1) {
    LEAVE();
    return 0;
  }
  if (n2) {
    if (n2->type == T_DIR && n1->type != T_DIR)
      FAIL(EISDIR);
    if (n2->type != T_DIR && n1->type == T_DIR)
      FAIL(ENOTDIR);
    if (n2->type == T_DIR && n2->nent > 0)
      FAIL(ENOTEMPTY);
    dir_del(d2, m2);
  }
  n1->nlink += 1;
  dir_del(d1, m1);
  dir_add(d2, m2, n1);
  n1->nlink -= 1;
  AFTER(a);
  LEAVE();
  return 0;
}

int hx_renameat(int a, const char *f, int b, const char *t) { (void)a; (void)b; return hx_rename(f, t); }

int
hx_link(const char *from, const char *to) {
  struct act a;
  struct inode *d, *n, *n2;
  char m[NAME];
  int e;
  ENTER();
  a = sys(SC_LINK, 1, from, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char b1[9000], b2[9000];
    e = link(rpath(from, b1), rpath(to, b2));
    LEAVE();
    return e;
  }
  e = walk_get(from, 0, &n);
  if (e)
    FAIL(e);
  e = walk(to, 0, &d, m, &n2, 0);
  if (e)
    FAIL(e);
  if (n2 || d == NULL)
    FAIL(EEXIST);
  if (n->type == T_DIR)
    FAIL(EPERM);
  dir_add(d, m, n);
  AFTER(a);
  LEAVE();
  return 0;
}

int
hx_unlink(const char *p) {
  struct act a;
  struct inode *d, *n;
  char m[NAME], cb[8192];
  int e;
  ENTER();
  LIB_READS(p, strlen(p) + 1);
  e = env_real ? 1 : (walk(chop(p, cb), 0, &d, m, &n, 0) == 0 && n != NULL);
  a = sys(SC_UNLINK, e, p, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    e = unlink(rpath(p, buf));
    LEAVE();
    return e;
  }
  e = walk(chop(p, cb), 0, &d, m, &n, 0);
  if (e)
    FAIL(e);
  if (n == NULL)
    FAIL(ENOENT);
  if (n->type == T_DIR)
    FAIL(EISDIR);
  if (chop(p, cb) != p)
    FAIL(ENOTDIR);
  dir_del(d, m);
  AFTER(a);
  LEAVE();
  return 0;
}

int
hx_rmdir(const char *p) {
  struct act a;
  struct inode *d, *n;
  char m[NAME], cb[8192];
  int e;
  ENTER();
  e = env_real ? 1 : (walk(chop(p, cb), 0, &d, m, &n, 0) == 0 && n != NULL);
  a = sys(SC_RMDIR, e, p, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    e = rmdir(rpath(p, buf));
    LEAVE();
    return e;
  }
  e = walk(chop(p, cb), 0, &d, m, &n, 0);
  if (e)
    FAIL(e);
  if (n == NULL)
    FAIL(ENOENT);
  if (n->type != T_DIR)
    FAIL(ENOTDIR);
  if (d == NULL)
    FAIL(EBUSY);
  if (n->nent > 0)
    FAIL(ENOTEMPTY);
  dir_del(d, m);
  AFTER(a);
  LEAVE();
  return 0;
}

int hx_unlinkat(int d, const char *p, int fl) { (void)d; return (fl & AT_REMOVEDIR) ? hx_rmdir(p) : hx_unlink(p); }

int
hx_remove(const char *p) {
  struct inode *n;
  if (!env_real && walk_get(p, 0, &n) == 0 && n->type == T_DIR)
    return hx_rmdir(p);
  return hx_unlink(p);
}

int
hx_mkdir(const char *p, mode_t mode) {
  struct act a;
  struct inode *d, *n;
  char m[NAME], cb[8192];
  int e;
  ENTER();
  LIB_READS(p, strlen(p) + 1);
  e = env_real ? 1 : (walk(chop(p, cb), 0, &d, m, &n, 0) == 0 && n == NULL);
  a = sys(SC_MKDIR, e, p, 0, 0);
  if (a.err)
    FAIL(a.err);
  if (env_real) {
    char buf[9000];
    e = mkdir(rpath(p, buf), mode);
    LEAVE();
    return e;
  }
  e = walk(chop(p, cb), 0, &d, m, &n, 0);
  if (e)
    FAIL(e);
  if (n)
    FAIL(EEXIST);
  n = ino_alloc(T_DIR);
  n->mode = mode & 0777 & ~022;
  dir_add(d, m, n);
  AFTER(a);
  LEAVE();
  return 0;
}

int hx_mkdirat(int d, const char *p, mode_t m) { (void)d; return hx_mkdir(p, m); }

int
hx_fsync(int fd) {
  struct fdent *f;
  struct act a;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_FSYNC, 0, f ? f->path : "", 0, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  if (f->real < 0 && !f->special)
    inode[f->ino].synced = inode[f->ino].size;
  LEAVE();
  return 0;
}

int hx_fdatasync(int fd) { return hx_fsync(fd); }
int hx_sync_file_range(int fd, off_t a, off_t b, unsigned f) { (void)a; (void)b; (void)f; return hx_fsync(fd); }
int hx_posix_fadvise(int fd, off_t a, off_t b, int c) { (void)fd; (void)a; (void)b; (void)c; return 0; }
int hx_madvise(void *a, size_t n, int c) { (void)a; (void)n; (void)c; return 0; }
int hx_msync(void *a, size_t n, int c) { (void)a; (void)n; (void)c; return 0; }
void
hx_sync(void) {
  int i;
  for (i = 2; i < NINODE; i++)
    inode[i].synced = inode[i].size;
}

int
hx_dup(int fd) {
  struct fdent *f;
  int i;
  struct act a;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_DUP, 0, f ? f->path : "", 0, 0);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  i = new_fd();
  if (i < 0)
    FAIL(EMFILE);
  {
    int num = fds[i].num;
    fds[i] = *f;
    fds[i].num = num;
  }
  if (f->real >= 0)
    fds[i].real = dup(f->real);
  else if (!f->special)
    inode[f->ino].opens += 1;
  LEAVE();
  return ent_fd(i);
}

/* Record locks. */
static int
lock_conflict(int ino, int proc, int ofd, int type, long s, long e) {
  int i;
  for (i = 0; i < NLOCK; i++) {
    if (!locks[i].used || locks[i].ino != ino)
      continue;
    if (locks[i].end < s || locks[i].start > e)
      continue;
    if (ofd >= 0 ? locks[i].ofd == ofd : (locks[i].ofd < 0 && locks[i].proc == proc))
      continue;
    if (type == F_WRLCK || locks[i].type == F_WRLCK)
      return i + 1;
  }
  return 0;
}

static void
lock_clear(int ino, int proc, int ofd, long s, long e) {
  int i, j;
  for (i = 0; i < NLOCK; i++) {
    struct lockent *l = &locks[i];
    if (!l->used || l->ino != ino)
      continue;
    if (ofd >= 0 ? l->ofd != ofd : (l->ofd >= 0 || l->proc != proc))
      continue;
    if (l->end < s || l->start > e)
      continue;
    if (l->start < s && l->end > e) {
      for (j = 0; j < NLOCK; j++)
        if (!locks[j].used)
          break;
      if (j == NLOCK)
        mc_internal("lock table full");
      locks[j] = *l;
      locks[j].start = e + 1;
      l->end = s - 1;
    } else if (l->start < s) {
      l->end = s - 1;
    } else if (l->end > e) {
      l->start = e + 1;
    } else {
      l->used = 0;
    }
  }
}

static int
lock_set(struct fdent *f, int ofd, int type, long s, long e) {
  int i;
  if (type == F_UNLCK) {
    lock_clear(f->ino, f->proc, ofd, s, e);
    return 0;
  }
  if (lock_conflict(f->ino, f->proc, ofd, type, s, e))
    return EAGAIN;
  lock_clear(f->ino, f->proc, ofd, s, e);
  for (i = 0; i < NLOCK; i++) {
    if (!locks[i].used) {
      locks[i].used = 1;
      locks[i].ino = f->ino;
      locks[i].proc = f->proc;
      locks[i].ofd = ofd;
      locks[i].type = type;
      locks[i].start = s;
      locks[i].end = e;
      return 0;
    }
  }
  mc_internal("lock table full");
}

struct lwait { struct fdent *f; int ofd, type; long s, e; };
static int
lock_ready(void *arg) {
  struct lwait *w = arg;
  return !lock_conflict(w->f->ino, w->f->proc, w->ofd, w->type, w->s, w->e);
}

int
hx_fcntl(int fd, int cmd, ...) {
  struct fdent *f;
  struct act a;
  va_list ap;
  long larg = 0;
  struct flock *fl = NULL;
  int lk;

  ENTER();
  va_start(ap, cmd);
  lk = cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK
    || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK;
  if (lk)
    fl = va_arg(ap, struct flock *);
  else
    larg = va_arg(ap, long);
  va_end(ap);
  f = get_fd(fd);
  a = sys(lk ? (fl->l_type == F_UNLCK ? SC_UNLOCK : SC_LOCK) : SC_FCNTL, 0,
          f ? f->path : "", 0, cmd);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  if (f->real >= 0) {
    int r = lk ? fcntl(f->real, cmd, fl) : fcntl(f->real, cmd, larg);
    LEAVE();
    return r;
  }
  if (lk) {
    long s = fl->l_start, e;
    int ofd = cmd >= F_OFD_GETLK ? (int)(f - fds) : -1;
    int r;
    LIB_READS(fl, sizeof(*fl));
    if (fl->l_whence == SEEK_CUR)
      s += f->off;
    else if (fl->l_whence == SEEK_END)
      s += inode[f->ino].size;
    e = fl->l_len == 0 ? 0x7fffffffffffL : s + fl->l_len - 1;
    if (cmd == F_GETLK || cmd == F_OFD_GETLK) {
      r = lock_conflict(f->ino, f->proc, ofd, fl->l_type, s, e);
      if (r == 0)
        fl->l_type = F_UNLCK;
      else {
        fl->l_type = locks[r - 1].type;
        fl->l_pid = 100 + locks[r - 1].proc;
      }
      LEAVE();
      return 0;
    }
    if (fl->l_type == F_WRLCK && (f->flags & O_ACCMODE) == O_RDONLY)
      FAIL(EBADF);
    if (fl->l_type == F_RDLCK && (f->flags & O_ACCMODE) == O_WRONLY)
      FAIL(EBADF);
    if (cmd == F_SETLKW || cmd == F_OFD_SETLKW) {
      struct lwait w = { f, ofd, fl->l_type, s, e };
      if (fl->l_type != F_UNLCK && !lock_ready(&w))
        sched_wait("file lock", lock_ready, &w);
    }
    r = lock_set(f, ofd, fl->l_type, s, e);
    if (r)
      FAIL(r);
    AFTER(a);
    LEAVE();
    return 0;
  }
  switch (cmd) {
    case F_GETFD: LEAVE(); return f->cloexec;
    case F_SETFD: f->cloexec = larg; LEAVE(); return 0;
    case F_GETFL: LEAVE(); return f->flags;
    case F_SETFL:
      f->flags = (f->flags & ~(O_APPEND | O_NONBLOCK)) | (larg & (O_APPEND | O_NONBLOCK));
      LEAVE();
      return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: LEAVE(); return hx_dup(fd);
    default: FAIL(EINVAL);
  }
}

int
hx_flock(int fd, int op) {
  struct fdent *f;
  struct act a;
  int r, type;
  ENTER();
  f = get_fd(fd);
  a = sys((op & LOCK_UN) ? SC_UNLOCK : SC_LOCK, 0, f ? f->path : "", 0, op);
  if (f == NULL)
    FAIL(EBADF);
  if (a.err)
    FAIL(a.err);
  type = (op & LOCK_UN) ? F_UNLCK : (op & LOCK_SH) ? F_RDLCK : F_WRLCK;
  if (!(op & LOCK_NB) && type != F_UNLCK) {
    struct lwait w = { f, (int)(f - fds), type, 0, 0x7fffffffffffL };
    if (!lock_ready(&w))
      sched_wait("flock", lock_ready, &w);
  }
  r = lock_set(f, f - fds, type, 0, 0x7fffffffffffL);
  if (r)
    FAIL(EWOULDBLOCK);
  AFTER(a);
  LEAVE();
  return 0;
}

int
hx_lockf(int fd, int cmd, off_t len) {
  struct flock fl;
  memset(&fl, 0, sizeof(fl));
  fl.l_whence = SEEK_CUR;
  fl.l_len = len;
  fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return hx_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}

/* Directories. */
static int
dent_cmp(const void *a, const void *b) {
  return strcmp(((const struct dent *)b)->name, ((const struct dent *)a)->name);
}

void *
hx_opendir(const char *p) {
  struct act a;
  struct inode *n;
  struct dirstream *ds;
  int e, i;
  ENTER();
  LIB_READS(p, strlen(p) + 1);
  a = sys(SC_OPENDIR, 0, p, 0, 0);
  if (a.err)
    FAILP(a.err);
  if (env_real) {
    char buf[9000];
    DIR *r = opendir(rpath(p, buf));
    if (r == NULL)
      FAILP(errno);
    ds = calloc(1, sizeof(*ds));
    ds->rdir = r;
    ds->real = 1;
  } else {
    e = walk_get(p, 1, &n);
    if (e)
      FAILP(e);
    if (n->type != T_DIR)
      FAILP(ENOTDIR);
    ds = calloc(1, sizeof(*ds));
    ds->n = n->nent + 2;
    ds->ent = malloc(sizeof(struct dent) * ds->n);
    strcpy(ds->ent[0].name, ".");
    ds->ent[0].ino = n - inode;
    strcpy(ds->ent[1].name, "..");
    ds->ent[1].ino = 1;
    memcpy(ds->ent + 2, n->ent, sizeof(struct dent) * n->nent);
    /* Reverse order: callers must not rely on any. */
    qsort(ds->ent, ds->n, sizeof(struct dent), dent_cmp);
  }
  ds->proc = env_proc();
  snprintf(ds->path, sizeof(ds->path), "%s", p);
  for (i = 0; i < 16; i++)
    if (dss[i] == NULL)
      break;
  if (i == 16)
    mc_internal("too many directory streams");
  dss[i] = ds;
  nds += 1;
  LEAVE();
  return ds;
}

void *
hx_readdir(void *dp) {
  struct dirstream *ds = dp;
  struct act a;
  void *ret;
  ENTER();
  a = sys(SC_READDIR, 0, ds->path, 0, 0);
  if (a.err)
    FAILP(a.err);
  if (ds->real) {
    ret = readdir(ds->rdir);
    LEAVE();
    return ret;
  }
  if (ds->i >= ds->n) {
    LEAVE();
    return NULL;
  }
  memset(&ds->de, 0, sizeof(ds->de));
  strcpy(ds->de.d_name, ds->ent[ds->i].name);
  ds->de.d_ino = ds->ent[ds->i].ino;
  ds->de.d_type = inode[ds->ent[ds->i].ino].type == T_DIR ? DT_DIR
                : inode[ds->ent[ds->i].ino].type == T_LNK ? DT_LNK : DT_REG;
  ds->i += 1;
  LEAVE();
  return &ds->de;
}

void hx_rewinddir(void *dp) { ((struct dirstream *)dp)->i = 0; }

static void
ds_free(struct dirstream *ds) {
  int i;
  for (i = 0; i < 16; i++)
    if (dss[i] == ds)
      break;
  if (i == 16)
    mc_fail("closedir of a directory stream that is not open");
  dss[i] = NULL;
  nds -= 1;
  if (ds->real)
    closedir(ds->rdir);
  free(ds->ent);
  free(ds);
}

int
hx_closedir(void *dp) {
  struct dirstream *ds = dp;
  struct act a;
  ENTER();
  a = sys(SC_CLOSEDIR, 0, ds->path, 0, 0);
  ds_free(ds);
  if (a.err)
    FAIL(a.err);
  LEAVE();
  return 0;
}

/* Mappings. */
static size_t map_room(size_t len) { return (len + 4095) & ~(size_t)4095; }

void *
hx_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  struct fdent *f;
  struct act a;
  void *p, *q;
  int i;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_MMAP, 0, f ? f->path : "", len, flags);
  if (a.err) {
    errno = a.err;
    LEAVE();
    return MAP_FAILED;
  }
  if (len == 0 || ((flags & MAP_ANONYMOUS) == 0 && f == NULL)) {
    errno = len == 0 ? EINVAL : EBADF;
    LEAVE();
    return MAP_FAILED;
  }
  for (i = 0; i < NMAP; i++)
    if (!maps[i].used)
      break;
  if (i == NMAP)
    mc_internal("too many mappings");
  (void)addr;
  i = -1;
  if (!(flags & MAP_ANONYMOUS) && f->real < 0 && !f->special) {
    if ((f->flags & O_ACCMODE) == O_WRONLY)
      i = EACCES;
    else if ((flags & MAP_SHARED) && (prot & PROT_WRITE) && (f->flags & O_ACCMODE) != O_RDWR)
      i = EACCES;
    else if (inode[f->ino].type != T_REG)
      i = ENODEV;
  }
  if (i > 0) {
    errno = i;
    LEAVE();
    return MAP_FAILED;
  }
  for (i = 0; maps[i].used; i++)
    ;
  /* A page nobody may touch follows, so that reading on is noticed. */
  p = mmap(NULL, map_room(len) + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    LEAVE();
    return MAP_FAILED;
  }
  flags |= MAP_FIXED;
  if (flags & MAP_ANONYMOUS) {
    q = mmap(p, len, prot, flags, -1, 0);
  } else if (f->real >= 0) {
    q = mmap(p, len, prot, flags, f->real, off);
  } else {
    struct inode *n = &inode[f->ino];
    if ((size_t)off + len > n->cap)
      ino_grow(n, off + len);
    q = mmap(p, len, prot, flags, n->memfd, off);
  }
  if (q == MAP_FAILED) {
    i = errno;
    munmap(p, map_room(len) + 4096);
    errno = i;
    LEAVE();
    return MAP_FAILED;
  }
#if defined(MC_ASAN)
  __asan_poison_memory_region((char *)p + len, map_room(len) - len);
#endif
  maps[i].used = 1;
  maps[i].proc = env_proc();
  maps[i].addr = p;
  maps[i].len = len;
  maps[i].ino = 0;
  if (!(flags & MAP_ANONYMOUS) && f->real < 0) {
    maps[i].ino = f->ino;
    inode[f->ino].opens += 1;
  }
  LEAVE();
  return p;
}

static void
map_free(struct mapent *m) {
#if defined(MC_ASAN)
  __asan_unpoison_memory_region((char *)m->addr + m->len, map_room(m->len) - m->len);
#endif
  munmap(m->addr, map_room(m->len) + 4096);
  m->used = 0;
  if (m->ino) {
    inode[m->ino].opens -= 1;
    ino_put(&inode[m->ino]);
  }
}

int
hx_munmap(void *addr, size_t len) {
  struct act a;
  int i;
  ENTER();
  a = sys(SC_MUNMAP, 0, "", len, 0);
  if (a.err)
    FAIL(a.err);
  for (i = 0; i < NMAP; i++) {
    if (maps[i].used && maps[i].addr == addr && maps[i].proc == env_proc()) {
      size_t pg = 4096;
      if ((maps[i].len + pg - 1) / pg != (len + pg - 1) / pg)
        mc_fail("munmap of %zu bytes of a mapping of %zu bytes", len, maps[i].len);
#if defined(MC_TSAN)
      __tsan_write_range(addr, len);
#endif
      map_free(&maps[i]);
      LEAVE();
      return 0;
    }
  }
  mc_fail("munmap of an address that is not mapped");
}

char *
hx_getcwd(char *buf, size_t n) {
  struct act a;
  const char *c;
  ENTER();
  a = sys(SC_GETCWD, 0, "", n, 0);
  if (a.err)
    FAILP(a.err);
  c = cwd[env_proc()];
  if (c[0] == 0)
    c = "/";
  if (buf == NULL) {
    LEAVE();
    return hx_strdup(c);
  }
  if (strlen(c) + 1 > n)
    FAILP(ERANGE);
  LIB_WRITES(buf, strlen(c) + 1);
  strcpy(buf, c);
  LEAVE();
  return buf;
}

int
hx_chdir(const char *p) {
  (void)p;
  mc_fail("the library changes the working directory");
}

char *
hx_realpath(const char *p, char *out) {
  /* Textual: the universe uses links only inside database directories. */
  struct inode *n;
  int e = walk_get(p, 1, &n);
  char *buf = out;
  if (e) {
    errno = e;
    return NULL;
  }
  if (buf == NULL)
    buf = hx_malloc(4200);
  if (p[0] == '/')
    snprintf(buf, 4096, "%s", p);
  else
    snprintf(buf, 4096, "%s/%s", cwd[env_proc()], p);
  return buf;
}

/* Time, randomness, identity. */
int
hx_gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  env_clock += 1;
  tv->tv_sec = 1600000000 + env_clock / 1000000;
  tv->tv_usec = env_clock % 1000000;
  return 0;
}

int
hx_clock_gettime(clockid_t c, struct timespec *ts) {
  (void)c;
  env_clock += 1;
  ts->tv_sec = 1600000000 + env_clock / 1000000;
  ts->tv_nsec = (env_clock % 1000000) * 1000;
  return 0;
}

time_t
hx_time(time_t *t) {
  if (t)
    *t = 1600000000;
  return 1600000000;
}

ssize_t
hx_getrandom(void *buf, size_t len, unsigned fl) {
  struct act a;
  size_t i;
  uint32_t x;
  (void)fl;
  ENTER();
  a = sys(SC_RANDOM, 0, "", len, 0);
  if (a.err)
    FAIL(a.err);
  x = ++rnd_counter * 2654435761u + 12345;
  for (i = 0; i < len; i++) {
    x = x * 1664525u + 1013904223u;
    ((uint8_t *)buf)[i] = x >> 24 ^ (env_rnd_n++ == env_rnd_flip ? 0xff : 0);
  }
  LEAVE();
  return len;
}

void hx_arc4random_buf(void *buf, size_t len) { (void)!hx_getrandom(buf, len, 0); }

int hx_getentropy(void *buf, size_t len) { return hx_getrandom(buf, len, 0) < 0 ? -1 : 0; }

/* The WebAssembly ports (see wasm/). */
uint16_t
hx___wasi_random_get(uint8_t *buf, size_t len) {
  return hx_getrandom(buf, len, 0) < 0 ? errno : 0;
}

void
hx_uuid_generate(uint8_t *out) {
  /* (cannot fail) */
  if (hx_getrandom(out, 16, 0) < 0)
    mc_prune();
  out[6] = (out[6] & 0x0f) | 0x40;
  out[8] = (out[8] & 0x3f) | 0x80;
}

/* Entries of 24 bytes and their names, cut where the buffer ends. */
uint16_t
hx___wasi_fd_readdir(int fd, uint8_t *buf, size_t len, uint64_t cookie, size_t *used) {
  struct fdent *f;
  struct act a;
  struct inode *n;
  struct dent *ent;
  uint8_t b[24 + 300];
  size_t at = 0, k, l;
  uint64_t x;
  uint32_t y;
  int i, cnt;
  ENTER();
  f = get_fd(fd);
  a = sys(SC_READDIR, 0, f ? f->path : "", 0, 0);
  if (a.err) {
    LEAVE();
    return a.err;
  }
  if (f == NULL || f->special || f->real >= 0 || inode[f->ino].type != T_DIR) {
    LEAVE();
    return f == NULL ? EBADF : ENOTDIR;
  }
  n = &inode[f->ino];
  cnt = n->nent + 2;
  ent = malloc(sizeof(struct dent) * cnt);
  strcpy(ent[0].name, ".");
  ent[0].ino = n - inode;
  strcpy(ent[1].name, "..");
  ent[1].ino = 1;
  memcpy(ent + 2, n->ent, sizeof(struct dent) * n->nent);
  qsort(ent, cnt, sizeof(struct dent), dent_cmp);
  for (i = cookie; i < cnt && at < len; i++) {
    memset(b, 0, 24);
    x = i + 1;
    memcpy(b, &x, 8);
    x = ent[i].ino;
    memcpy(b + 8, &x, 8);
    y = strlen(ent[i].name);
    memcpy(b + 16, &y, 4);
    b[20] = inode[ent[i].ino].type == T_DIR ? 3 : inode[ent[i].ino].type == T_LNK ? 7 : 4;
    memcpy(b + 24, ent[i].name, y);
    l = 24 + y;
    k = l < len - at ? l : len - at;
    memcpy(buf + at, b, k);
    at += k;
  }
  free(ent);
  *used = at;
  LEAVE();
  return 0;
}

int hx_getpid(void) { return 100 + env_proc(); }

/* ------------------------------------------------------------------ */
/* stdio of the command-line tool and of assertion messages              */
/* ------------------------------------------------------------------ */

static int
put(FILE *f, const char *s, size_t n) {
  char *b = f == stderr ? env_err : env_out;
  size_t *l = f == stderr ? &env_err_len : &env_out_len;
  if (*l + n >= sizeof(env_out))
    n = sizeof(env_out) - 1 - *l;
  memcpy(b + *l, s, n);
  *l += n;
  b[*l] = 0;
  return n;
}

int
hx_vfprintf(FILE *f, const char *fmt, va_list ap) {
  static char tmp[1 << 16];
  int n;
  ENTER();
  n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
  if (n >= (int)sizeof(tmp))
    n = sizeof(tmp) - 1;
  put(f, tmp, n);
  LEAVE();
  return n;
}

int
hx_fprintf(FILE *f, const char *fmt, ...) {
  va_list ap;
  int n;
  va_start(ap, fmt);
  n = hx_vfprintf(f, fmt, ap);
  va_end(ap);
  return n;
}

int
hx_printf(const char *fmt, ...) {
  va_list ap;
  int n;
  va_start(ap, fmt);
  n = hx_vfprintf(stdout, fmt, ap);
  va_end(ap);
  return n;
}

int hx_vprintf(const char *fmt, va_list ap) { return hx_vfprintf(stdout, fmt, ap); }
int hx_puts(const char *s) { put(stdout, s, strlen(s)); put(stdout, "\n", 1); return 1; }
int hx_fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 1; }
int hx_putchar(int c) { char x = c; put(stdout, &x, 1); return c; }
int hx_putc(int c, FILE *f) { char x = c; put(f, &x, 1); return c; }
int hx__IO_putc(int c, FILE *f) { char x = c; put(f, &x, 1); return c; }
int hx_fputc(int c, FILE *f) { char x = c; put(f, &x, 1); return c; }
size_t hx_fwrite(const void *p, size_t a, size_t b, FILE *f) { put(f, p, a * b); return b; }
int hx_fflush(FILE *f) { (void)f; return 0; }
void
hx_perror(const char *s) {
  put(stderr, s, strlen(s));
  put(stderr, "\n", 1);
}

void
env_cli_reset(void) {
  env_out_len = env_err_len = 0;
  env_out[0] = env_err[0] = 0;
}

/* The tool, as one process. */
int urkel_cli_main(int argc, char **argv);
static jmp_buf cli_jmp;
static int cli_in, cli_status;

void
hx_exit(int st) {
  if (!cli_in)
    mc_fail("the library ends the process: exit(%d)", st);
  cli_status = st;
  longjmp(cli_jmp, 1);
}
void hx__exit(int st) { hx_exit(st); }

int
env_cli(int argc, char **argv, int *status) {
  char **av = calloc(argc + 1, sizeof(char *)), **shown = calloc(argc + 1, sizeof(char *));
  int i;
  for (i = 0; i < argc; i++)
    shown[i] = av[i] = strdup(argv[i]);
  env_cli_reset();
  st_reset(env_proc());
  cli_in = 1;
  if (setjmp(cli_jmp) == 0)
    cli_status = urkel_cli_main(argc, av);
  cli_in = 0;
  for (i = 0; i < argc; i++)
    free(shown[i]);
  free(shown);
  free(av);
  env_proc_exit(env_proc()); /* as a process does when it ends */
  *status = cli_status & 255;
  return 1;
}

/* ------------------------------------------------------------------ */
/* Harness side                                                         */
/* ------------------------------------------------------------------ */

static void
release_proc(int p) {
  int i;
  for (i = 0; i < NFD; i++)
    if (fds[i].used && (p < 0 || fds[i].proc == p))
      fd_close(&fds[i]);
  for (i = 0; i < NMAP; i++)
    if (maps[i].used && (p < 0 || maps[i].proc == p))
      map_free(&maps[i]);
  for (i = 0; i < NLOCK; i++)
    if (locks[i].used && (p < 0 || locks[i].proc == p))
      locks[i].used = 0;
  for (i = 0; i < 16; i++)
    if (dss[i] && (p < 0 || dss[i]->proc == p))
      ds_free(dss[i]);
  win_release(p);
}

void
env_proc_exit(int p) {
  release_proc(p);
  free_proc_memory(p);
  sched_reset_locks(p);
  st_reset(p);
}

void env_proc_kill_memory(void) { free_proc_memory(-1); }

void
env_init(void) {
  a_new(ATAB);
  inode[0].type = T_DIR; /* never used */
  inode[1].type = T_DIR;
  inode[1].ent = malloc(sizeof(struct dent) * NDENT);
  inode[1].ecap = NDENT;
  inode[1].nlink = 1;
  sched_init();
  st_init();
}

void
env_reset(void) {
  int i;
  env_hook = NULL;
  env_yield = NULL;
  env_crash = NULL;
  env_maxfds = 1 << 20;
  env_aborted_ok = 0;
  env_data_open_max = 0;
  for (i = 0; i <= MAXTHREADS; i++)
    curproc[i] = 0;
  release_proc(-1);
  free_proc_memory(-1);
  sched_reset_locks(-1);
  st_reset(-1);
  if (!env_real) {
    for (i = 2; i < NINODE; i++)
      if (inode[i].type != T_FREE)
        ino_free(&inode[i]);
    inode[1].nent = 0;
  }
  for (i = 0; i < 4; i++)
    cwd[i][0] = 0;
  rnd_counter = env_seed;
  env_clock = 0;
  env_rnd_flip = -1;
  env_rnd_n = 0;
  env_cli_reset();
}

void
env_stat(struct envstat *st) {
  int i;
  memset(st, 0, sizeof(*st));
  for (i = 0; i < NFD; i++)
    st->fds += fds[i].used;
  st->fds += win_handles();
  for (i = 0; i < NMAP; i++)
    st->maps += maps[i].used;
  for (i = 0; i < NLOCK; i++)
    st->locks += locks[i].used;
  st->locks += sched_locks_held();
  st->allocs = nallocs;
  st->bytes = nbytes;
  st->dirs = nds;
}

static struct inode *
fget(const char *path) {
  struct inode *n;
  if (walk_get(path, 0, &n) != 0)
    return NULL;
  return n;
}

int fs_exists(const char *p) {
  if (env_real) {
    char b[9000];
    struct stat st;
    return lstat(rpath(p, b), &st) == 0;
  }
  return fget(p) != NULL;
}

char
fs_type(const char *p) {
  struct inode *n;
  if (env_real) {
    char b[9000];
    struct stat st;
    if (lstat(rpath(p, b), &st) != 0)
      return 0;
    return S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
  }
  n = fget(p);
  return n == NULL ? 0 : n->type == T_DIR ? 'd' : n->type == T_LNK ? 'l' : 'f';
}

/* How much of the file a power failure cannot take. */
long
fs_synced(const char *p) {
  struct inode *n = fget(p);
  return n == NULL ? -1 : (long)n->synced;
}

void fs_all_synced(void) { hx_sync(); }

long
fs_size(const char *p) {
  struct inode *n;
  if (env_real) {
    char b[9000];
    struct stat st;
    if (stat(rpath(p, b), &st) != 0)
      return -1;
    return st.st_size;
  }
  n = fget(p);
  return n == NULL ? -1 : (long)n->size;
}

long
fs_read(const char *p, void *buf, size_t cap) {
  struct inode *n;
  if (env_real) {
    char b[9000];
    int fd = open(rpath(p, b), O_RDONLY);
    long r;
    if (fd < 0)
      return -1;
    r = read(fd, buf, cap);
    close(fd);
    return r;
  }
  n = fget(p);
  if (n == NULL || n->type != T_REG)
    return -1;
  if (cap > n->size)
    cap = n->size;
  memcpy(buf, n->data, cap);
  return cap;
}

void
fs_write(const char *p, const void *buf, size_t len) {
  struct inode *d, *n;
  char m[NAME];
  if (env_real) {
    char b[9000];
    int fd = open(rpath(p, b), O_WRONLY | O_CREAT | O_TRUNC, 0640);
    if (fd < 0 || write(fd, buf, len) != (ssize_t)len)
      mc_internal("fs_write real");
    close(fd);
    return;
  }
  if (walk(p, 0, &d, m, &n, 0) != 0)
    mc_internal("fs_write %s", p);
  if (n == NULL) {
    n = ino_alloc(T_REG);
    n->mode = 0640;
    dir_add(d, m, n);
  }
  ino_trunc(n, 0);
  ino_trunc(n, len);
  memcpy(n->data, buf, len);
}

/* Writes into a file, which may leave a hole before. */
void
fs_pwrite(const char *p, const void *buf, size_t len, size_t off) {
  struct inode *n = fget(p);
  if (env_real)
    mc_internal("fs_pwrite");
  if (n == NULL) {
    fs_write(p, "", 0);
    n = fget(p);
  }
  if (off + len > n->size)
    ino_trunc(n, off + len);
  memcpy(n->data + off, buf, len);
}

/* A further name for a file. */
void
fs_link(const char *p, const char *q) {
  struct inode *d, *n, *o = fget(p);
  char m[NAME];
  if (walk(q, 0, &d, m, &n, 0) != 0 || n || o == NULL || env_real)
    mc_internal("fs_link %s", q);
  dir_add(d, m, o);
}

/* Names dir/<from> to dir/<to - 1> for the file p; none of them is there yet. */
void
fs_links(const char *p, const char *dir, int from, int to) {
  struct inode *d, *n, *o;
  char m[NAME];
  if (from >= to)
    return;
  o = fget(p);
  if (walk(dir, 0, &d, m, &n, 0) != 0 || n == NULL || n->type != T_DIR || o == NULL || env_real)
    mc_internal("fs_links %s", dir);
  for (; from < to; from++) {
    snprintf(m, sizeof(m), "%010d", from);
    dir_add(n, m, o);
  }
}

void
fs_mkdir(const char *p) {
  struct inode *d, *n;
  char m[NAME];
  if (env_real) {
    char b[9000];
    mkdir(rpath(p, b), 0750);
    return;
  }
  if (walk(p, 0, &d, m, &n, 0) != 0)
    mc_internal("fs_mkdir %s", p);
  if (n)
    return;
  n = ino_alloc(T_DIR);
  n->mode = 0750;
  dir_add(d, m, n);
}

void
fs_symlink(const char *target, const char *p) {
  struct inode *d, *n;
  char m[NAME];
  if (env_real) {
    char b[9000], t[9000];
    if (symlink(target[0] == '/' ? rpath(target, t) : target, rpath(p, b)) != 0)
      mc_internal("symlink");
    return;
  }
  if (walk(p, 0, &d, m, &n, 0) != 0 || n)
    mc_internal("fs_symlink %s", p);
  n = ino_alloc(T_LNK);
  n->mode = 0777;
  n->size = strlen(target);
  snprintf(n->target, NAME, "%s", target);
  dir_add(d, m, n);
}

void
fs_unlink(const char *p) {
  struct inode *d, *n;
  char m[NAME];
  if (env_real) {
    char b[9000];
    unlink(rpath(p, b));
    return;
  }
  if (walk(p, 0, &d, m, &n, 0) == 0 && n)
    dir_del(d, m);
}

void
fs_rmdir(const char *p) {
  if (env_real) {
    char b[9000];
    rmdir(rpath(p, b));
    return;
  }
  fs_unlink(p);
}

void
fs_truncate(const char *p, size_t len) {
  struct inode *n;
  if (env_real) {
    char b[9000];
    if (truncate(rpath(p, b), len) != 0)
      mc_internal("truncate");
    return;
  }
  n = fget(p);
  if (n)
    ino_trunc(n, len);
}

uint8_t *
fs_data(const char *p, size_t *len) {
  struct inode *n = fget(p);
  if (n == NULL || n->type != T_REG)
    return NULL;
  *len = n->size;
  return n->data;
}

int
fs_list(const char *dir, char names[][256], int max) {
  int i, c = 0;
  if (env_real) {
    char b[9000];
    DIR *d = opendir(rpath(dir, b));
    struct dirent *e;
    if (d == NULL)
      return -1;
    while ((e = readdir(d)) && c < max)
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
        snprintf(names[c++], 256, "%s", e->d_name);
    closedir(d);
  } else {
    struct inode *n;
    if (walk_get(dir, 1, &n) != 0 || n->type != T_DIR)
      return -1;
    for (i = 0; i < n->nent && c < max; i++)
      snprintf(names[c++], 256, "%s", n->ent[i].name);
  }
  qsort(names, c, 256, (int (*)(const void *, const void *))strcmp);
  return c;
}

void fs_chdir(const char *p) { snprintf(cwd[env_proc()], sizeof(cwd[0]), "%s", strcmp(p, "/") == 0 ? "" : p); }

static uint64_t
hash_node(struct inode *n, const char *except, const char *path) {
  uint64_t h = 0;
  int i;
  if (n->type == T_REG) {
    h = mc_hash(1, n->data, n->size);
  } else if (n->type == T_LNK) {
    h = mc_hash(2, n->target, strlen(n->target));
  } else {
    h = 3;
    for (i = 0; i < n->nent; i++) {
      char sub[8600];
      uint64_t k;
      snprintf(sub, sizeof(sub), "%s/%.255s", path, n->ent[i].name);
      if (except && strcmp(sub, except) == 0)
        continue;
      k = hash_node(&inode[n->ent[i].ino], except, sub);
      k = mc_hash(k, n->ent[i].name, strlen(n->ent[i].name));
      h += k; /* order independent */
    }
  }
  return h;
}

/* Hash of the tree at path, ignoring what lies at except. */
uint64_t
fs_tree_hash(const char *path, const char *except) {
  struct inode *n = strcmp(path, "/") == 0 ? &inode[1] : fget(path);
  if (n == NULL)
    return 0;
  return hash_node(n, except, strcmp(path, "/") == 0 ? "" : path);
}

uint64_t env_fs_hash(void) { return fs_tree_hash("/", NULL); }

static void
dump_node(struct inode *n, const char *path) {
  int i;
  if (n->type == T_REG)
    mc_trace("      %s: %zu bytes", path, n->size);
  else if (n->type == T_LNK)
    mc_trace("      %s -> %s", path, n->target);
  else {
    mc_trace("      %s/", path);
    for (i = 0; i < n->nent; i++) {
      char sub[8600];
      snprintf(sub, sizeof(sub), "%s/%.255s", path, n->ent[i].name);
      dump_node(&inode[n->ent[i].ino], sub);
    }
  }
}

void fs_dump(void) { if (mc_verbose) dump_node(&inode[1], ""); }

struct img_node { int type, nlink; unsigned mode; size_t size; uint8_t *data; int nent; struct dent *ent; char target[NAME]; };
struct fs_image { struct img_node n[NINODE]; uint32_t rnd; };

struct fs_image *
fs_save(void) {
  struct fs_image *im = calloc(1, sizeof(*im));
  int i;
  for (i = 1; i < NINODE; i++) {
    struct inode *n = &inode[i];
    struct img_node *m = &im->n[i];
    m->type = n->type;
    if (n->type == T_FREE || (n->nlink == 0 && i != 1)) {
      m->type = T_FREE;
      continue;
    }
    m->nlink = n->nlink;
    m->mode = n->mode;
    m->size = n->size;
    if (n->type == T_REG && n->size) {
      m->data = malloc(n->size);
      memcpy(m->data, n->data, n->size);
    }
    if (n->type == T_DIR) {
      m->nent = n->nent;
      m->ent = malloc(sizeof(struct dent) * (n->nent + 1));
      memcpy(m->ent, n->ent, sizeof(struct dent) * n->nent);
    }
    memcpy(m->target, n->target, NAME);
  }
  im->rnd = rnd_counter;
  return im;
}

/* Only when nothing is open. */
void
fs_restore(const struct fs_image *im) {
  int i;
  for (i = 1; i < NINODE; i++) {
    struct inode *n = &inode[i];
    const struct img_node *m = &im->n[i];
    if (n->type != T_FREE && i != 1)
      ino_free(n);
    if (m->type == T_FREE)
      continue;
    if (i != 1) {
      /* ino_alloc takes the lowest free slot: force this one. */
      int j, save[NINODE];
      for (j = 1; j < i; j++) {
        save[j] = inode[j].type;
        if (inode[j].type == T_FREE)
          inode[j].type = T_LNK;
      }
      if (ino_alloc(m->type) != n)
        mc_internal("restore");
      for (j = 1; j < i; j++)
        inode[j].type = save[j];
    }
    n->nlink = m->nlink;
    n->mode = m->mode;
    if (m->type == T_REG) {
      ino_trunc(n, m->size);
      if (m->size)
        memcpy(n->data, m->data, m->size);
    } else {
      n->size = m->size;
    }
    if (m->type == T_DIR) {
      n->nent = m->nent;
      if (m->nent > n->ecap)
        mc_internal("restore: large directory");
      memcpy(n->ent, m->ent, sizeof(struct dent) * m->nent);
    }
    memcpy(n->target, m->target, NAME);
  }
  rnd_counter = im->rnd;
}

void
fs_free(struct fs_image *im) {
  int i;
  for (i = 1; i < NINODE; i++) {
    free(im->n[i].data);
    free(im->n[i].ent);
  }
  free(im);
}
