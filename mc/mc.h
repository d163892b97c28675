/* mc.h - explorer, environment, scheduler and reference model interfaces. */
#ifndef MC_H
#define MC_H

#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <urkel.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))

/* ------------------------------------------------------------------ */
/* Explorer (mc.c)                                                     */
/* ------------------------------------------------------------------ */

/* Depth-first enumeration of every choice vector of `run` for each item. */
int mc_choose(int n);                 /* 0 .. n-1, enumerated exhaustively */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void mc_internal(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void mc_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int mc_verbose;                /* replaying: print trace lines */
extern int mc_thorough;               /* tier */
extern unsigned mc_seed;
void mc_state(uint64_t hash);         /* count a distinct state */
void mc_trans(unsigned n);            /* count transitions */
void mc_count(int which, unsigned n); /* free counters, named by check */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int mc_want_sample(void);
void mc_prune(void) __attribute__((noreturn)); /* abandon this execution quietly */
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
void mc_slow(void);                   /* heartbeat inside long executions */

#define MC_NCOUNTERS 8

struct check {
  const char *id;          /* property */
  const char *name;        /* part name, for parameters and replay */
  long (*items)(void);     /* number of work items for the tier */
  void (*run)(long item);  /* one execution; choices via mc_choose */
  const char *space;       /* what is enumerated, for the evidence */
  const char *counters[MC_NCOUNTERS];
  int flavours;            /* bit set of FL_* in which the part runs */
  int watchdog;            /* seconds per execution, 0 = default */
};

#define FL_ASAN 1
#define FL_MSAN 2
#define FL_TSAN 4
#define FL_PLAIN 8
#define FL_SYNC 32            /* asan, built with URKEL_FSYNC */
#define FL_WASI 128           /* asan, the WASI port */
#define FL_EMSC 256           /* msan, the Emscripten port */
#define FL_WIN 512            /* asan, the Windows port */
#define FL_WINT 1024          /* tsan, the Windows port */
#define FL_STOCK 64           /* asan, built without URKEL_VERIFY: the shipped limits */
#define FL_AFN 16             /* asan, function entries are scheduling points */

void mc_register(const struct check *c);
#define PART(sym, ...) \
  static const struct check sym = {__VA_ARGS__}; \
  __attribute__((constructor)) static void reg_##sym(void) { mc_register(&sym); } \
  struct mc_swallow_##sym

/* ------------------------------------------------------------------ */
/* Environment (env.c): in-memory file system, processes, allocator     */
/* ------------------------------------------------------------------ */

enum sckind {
  SC_OPEN, SC_READ, SC_PREAD, SC_WRITE, SC_PWRITE, SC_LSEEK, SC_FSTAT,
  SC_STAT, SC_LSTAT, SC_ACCESS, SC_CHMOD, SC_TRUNCATE, SC_FTRUNCATE,
  SC_RENAME, SC_UNLINK, SC_MKDIR, SC_RMDIR, SC_OPENDIR, SC_READDIR,
  SC_CLOSEDIR, SC_CLOSE, SC_FCNTL, SC_LOCK, SC_UNLOCK, SC_FSYNC, SC_MMAP,
  SC_MUNMAP, SC_GETCWD, SC_RANDOM, SC_LINK, SC_DUP, SC_N
};

struct sc {
  enum sckind kind;
  int mutating;            /* changes persistent state (a crash point) */
  const char *path;        /* path argument or path the fd was opened with */
  size_t len;              /* byte count, for reads and writes */
  int flags;
};

#define ACT_OK 0
struct act {
  int err;                 /* errno to fail with, or 0 */
  ssize_t shortn;          /* >= 0: transfer only this many bytes */
  int crash;               /* 1: crash before the call, 2: crash after it
                              (with shortn: after the partial transfer) */
};

/* Called for every system call of the library. */
extern void (*env_hook)(const struct sc *sc, struct act *act);
/* Called before every system call: scheduling point. */
extern void (*env_yield)(const char *what);
/* When a crash happens: must not return. */
extern void (*env_crash)(void);

extern const char *const sc_names[SC_N];

void env_init(void);               /* once per worker */
void env_reset(void);              /* fresh file system, no fds, no memory */
int env_proc(void);                /* current simulated process */
void win_release(int proc);        /* win.c */
long win_handles(void);
extern int win_pending;           /* removed files keep their names while open (until the next env_reset) */
void env_set_proc(int proc);       /* 0..3 */
void env_statics_reset(void);      /* the library's static data, every process */
void env_proc_exit(int proc);      /* release fds, locks, mappings */
void env_proc_kill_memory(void);   /* free all library allocations (after crash) */

struct envstat { long fds, maps, locks, allocs; size_t bytes; long dirs; };
void env_stat(struct envstat *st); /* resources held by the library */

uint64_t env_fs_hash(void);        /* hash of the whole persistent state */
/* Direct access for harnesses (no hooks, no counting). */
int fs_exists(const char *path);
long fs_size(const char *path);    /* -1 when absent */
long fs_synced(const char *path);
void fs_all_synced(void);
long fs_read(const char *path, void *buf, size_t cap);
void fs_write(const char *path, const void *buf, size_t len);
void fs_pwrite(const char *path, const void *buf, size_t len, size_t off);
void fs_link(const char *path, const char *name);
void fs_links(const char *p, const char *dir, int from, int to);
void fs_mkdir(const char *path);
void fs_symlink(const char *target, const char *path);
void fs_unlink(const char *path);
void fs_rmdir(const char *path);
void fs_truncate(const char *path, size_t len);
uint8_t *fs_data(const char *path, size_t *len); /* in place */
int fs_list(const char *dir, char names[][256], int max);
char fs_type(const char *path);    /* 'f', 'd', 'l' or 0 */
void fs_chdir(const char *path);   /* of the current process */
uint64_t fs_tree_hash(const char *path, const char *except);
void fs_dump(void);                /* trace the tree */

struct fs_image;
struct fs_image *fs_save(void);    /* snapshot of everything */
void fs_restore(const struct fs_image *img);
void fs_free(struct fs_image *img);

/* The store's limits (hook URKEL_VERIFY); env_reset leaves them alone. */
extern size_t urkel_verify_max_file_size, urkel_verify_max_open_files,
              urkel_verify_write_buffer, urkel_verify_read_buffer;
void env_limits_default(void);     /* the shipped values */
void env_limits_fast(void);        /* shipped, but for a smaller read buffer */

/* CLI output capture */
extern char env_out[1 << 16], env_err[1 << 16];
extern size_t env_out_len, env_err_len;
void env_cli_reset(void);
int env_cli(int argc, char **argv, int *status); /* runs the CLI main */

/* Backend: 0 = in-memory, 1 = real file system under env_real_root. */
extern int env_real;
extern char env_real_root[256];
extern uint32_t env_seed;          /* of the random numbers, used by env_reset */
extern long env_clock, env_rnd_flip, env_rnd_n;
extern long env_maxfds;            /* EMFILE beyond, per process */
extern int env_aborted_ok;
extern int env_data_open_max;      /* high-water mark of open data files */
int env_open_data_files(void);

/* ------------------------------------------------------------------ */
/* Scheduler (sched.c)                                                  */
/* ------------------------------------------------------------------ */

#define MAXTHREADS 4

struct sched_cfg {
  int nthreads;
  int preemptions;         /* bound; -1 = unbounded */
  int yield_on_sys;        /* system calls are scheduling points */
  int yield_on_fn;         /* library function entries are scheduling points */
  int writer_pref;         /* rwlock policy */
  int procs;               /* threads stand for processes: locks are no points */
};

void sched_run(const struct sched_cfg *cfg, void (*fn)(int tid));
int sched_tid(void);               /* -1 outside */
void sched_point(const char *what);/* explicit scheduling point */
long sched_clock(void);            /* logical time */
void sched_exit_thread(void) __attribute__((noreturn)); /* simulated kill */
int sched_killed(int tid);
long sched_locks_held(void);

/* ------------------------------------------------------------------ */
/* Reference (ref.c)                                                    */
/* ------------------------------------------------------------------ */

void ref_blake2b(uint8_t *out, size_t outlen, const void *key, size_t keylen,
                 const void *data, size_t len);

#define MAXK 320
#define MAXV 64

/* A universe: the keys and values that may occur. */
struct universe {
  int nk, nv;
  uint8_t key[MAXK][32];
  const uint8_t *val[MAXV];
  uint16_t len[MAXV];
  int order[MAXK];         /* key indices in ascending key order */
};
void uni_init(struct universe *u);
int uni_key(struct universe *u, const uint8_t *key);
int uni_key_bits(struct universe *u, const uint8_t *base, int flip_bit);
int uni_val(struct universe *u, size_t len, int tag);
void uni_done(struct universe *u); /* sorts; assigns order */

/* Contents: value index per key, or -1. */
typedef int8_t cont_t[MAXK];
void ref_root(const struct universe *u, const int8_t *c, uint8_t *root);
/* Merkle root of arbitrary (sorted) records. */
struct rec { const uint8_t *key; const uint8_t *val; size_t len; };
void ref_root_recs(const struct rec *r, int n, uint8_t *root);
size_t ref_prove(const struct rec *r, int n, const uint8_t *key, uint8_t *out);
/* Reference proof verifier: returns 0 or URKEL_E*, fills exists/value. */
int ref_verify(const uint8_t *raw, size_t len, const uint8_t *key,
               const uint8_t *root, int *exists, uint8_t *val, size_t *vlen);

int key_bit(const uint8_t *key, int i);

/* On-disk format, independent implementation. */
struct ptr { unsigned index; uint32_t pos; unsigned size; };
struct ptr ref_ptr(const uint8_t *p);
int ref_meta_ok(const uint8_t *d, const uint8_t *key);
void ref_hash_leaf(uint8_t *out, const uint8_t *key, const uint8_t *vh);
void ref_hash_branch(uint8_t *out, const uint8_t *pre, size_t size, const uint8_t *l, const uint8_t *r);
#define RD_MAXREC 512
struct rd_commit { int nrec; struct { uint8_t key[32]; uint8_t val[1024]; size_t len; } *rec; uint8_t root[32]; };
/* Parses the directory; returns number of commits in history order (oldest
   first), or -1 with a message. */
int rd_history(const char *dir, struct rd_commit *out, int max, char *msg, size_t msgn, long maxfile);
void rd_free(struct rd_commit *c, int n);

#endif
