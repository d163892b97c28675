/* sched.c - controlled thread scheduler and the library's locks.
 *
 * Real threads, of which exactly one runs at any time.  At each scheduling
 * point (lock operations, optionally system calls and library function
 * entries, and explicit points between calls) the explorer chooses who runs
 * next; a switch away from a thread that could continue costs one preemption.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "mc.h"
#include "env_int.h"

#if defined(MC_TSAN)
void __tsan_acquire(void *addr);
void __tsan_release(void *addr);
#define ACQ(p) __tsan_acquire((void *)(p))
#define REL(p) __tsan_release((void *)(p))
#else
#define ACQ(p) ((void)0)
#define REL(p) ((void)0)
#endif

enum { S_NONE, S_READY, S_BLOCKED, S_DONE };

struct thr {
  pthread_t pt;
  int created;
  int word;
  int status;
  const char *what;
  int (*ready)(void *);
  void *arg;
  int killed;
  jmp_buf jb;
};

static struct thr thr[MAXTHREADS];
static int mainword;
static __thread int my_tid = -1;
static struct sched_cfg cfg;
static int active;
static int preempted;
static void (*body)(int);
static long tick;
static char sync_start, sync_end;

int sched_tid(void) { return my_tid; }
long sched_clock(void) { return ++tick; }
int sched_killed(int t) { return thr[t].killed; }

static void
wake(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static void
await(int *w) {
  while (!__atomic_load_n(w, __ATOMIC_SEQ_CST))
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
  __atomic_store_n(w, 0, __ATOMIC_SEQ_CST);
}

static int
enabled(int t) {
  if (thr[t].status == S_READY)
    return 1;
  if (thr[t].status == S_BLOCKED)
    return thr[t].ready(thr[t].arg);
  return 0;
}

static void
deadlock(void) {
  char buf[600];
  size_t n = 0;
  int i;
  for (i = 0; i < cfg.nthreads; i++) {
    if (thr[i].status == S_BLOCKED)
      n += snprintf(buf + n, sizeof(buf) - n, " thread %d waits for %s;", i, thr[i].what);
  }
  mc_fail("deadlock:%s", buf);
}

/* Chooses the next thread to run; -1 when all are done. */
static int
pick(void) {
  int list[MAXTHREADS], n = 0, i, cur = my_tid, cur_en;
  cur_en = cur >= 0 && enabled(cur);
  if (cur_en) {
    if (cfg.preemptions >= 0 && preempted >= cfg.preemptions)
      return cur;
    list[n++] = cur;
  }
  for (i = 0; i < cfg.nthreads; i++)
    if (i != cur && enabled(i))
      list[n++] = i;
  if (n == 0) {
    for (i = 0; i < cfg.nthreads; i++)
      if (thr[i].status != S_DONE)
        deadlock();
    return -1;
  }
  i = mc_choose(n);
  if (cur_en && i > 0)
    preempted += 1;
  return list[i];
}

static void
transfer(int to) {
  if (to == my_tid)
    return;
  if (mc_verbose > 0 && to >= 0)
    mc_trace("      sched: run thread %d", to);
  wake(to < 0 ? &mainword : &thr[to].word);
}

void
sched_point(const char *what) {
  int to;
  (void)what;
  if (my_tid < 0 || !active)
    return;
  if (mc_verbose > 1)
    mc_trace("      point: thread %d at %s", my_tid, what);
  to = pick();
  if (to != my_tid) {
    transfer(to);
    await(&thr[my_tid].word);
    env_statics();
  }
}

/* Lock operations are not points between processes, which share no locks. */
static void
lock_point(const char *what) {
  if (!cfg.procs)
    sched_point(what);
}

void
sched_wait(const char *what, int (*ready)(void *), void *arg) {
  int to;
  if (my_tid < 0 || !active)
    mc_fail("deadlock: the only thread waits for %s", what);
  thr[my_tid].status = S_BLOCKED;
  thr[my_tid].what = what;
  thr[my_tid].ready = ready;
  thr[my_tid].arg = arg;
  to = pick();
  if (to != my_tid) {
    transfer(to);
    await(&thr[my_tid].word);
    env_statics();
  }
  thr[my_tid].status = S_READY;
}

static void
finish(void) {
  int to;
  thr[my_tid].status = S_DONE;
  to = pick();
  transfer(to);
}

static void *
thread_main(void *arg) {
  int t = (int)(intptr_t)arg;
  my_tid = t;
  for (;;) {
    await(&thr[t].word);
    ACQ(&sync_start);
    env_statics();
    if (setjmp(thr[t].jb) == 0)
      body(t);
    REL(&sync_end);
    finish();
  }
  return NULL;
}

void
sched_exit_thread(void) {
  thr[my_tid].killed = 1;
  longjmp(thr[my_tid].jb, 1);
}

static void
pin(void) {
  static int done;
  cpu_set_t set, one;
  int i, n, k = 0, pickn;
  if (done)
    return;
  done = 1;
  if (sched_getaffinity(0, sizeof(set), &set) != 0)
    return;
  n = CPU_COUNT(&set);
  pickn = getpid() % n;
  for (i = 0; i < CPU_SETSIZE; i++) {
    if (CPU_ISSET(i, &set) && k++ == pickn) {
      CPU_ZERO(&one);
      CPU_SET(i, &one);
      sched_setaffinity(0, sizeof(one), &one);
      return;
    }
  }
}

void
sched_run(const struct sched_cfg *c, void (*fn)(int)) {
  int i, to;
  pin();
  cfg = *c;
  body = fn;
  preempted = 0;
  tick = 0;
  for (i = 0; i < cfg.nthreads; i++) {
    if (!thr[i].created) {
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 1 << 20);
      if (pthread_create(&thr[i].pt, &at, thread_main, (void *)(intptr_t)i) != 0)
        mc_internal("pthread_create");
      thr[i].created = 1;
    }
    thr[i].status = S_READY;
    thr[i].killed = 0;
  }
  REL(&sync_start);
  active = 1;
  to = pick();
  transfer(to);
  await(&mainword);
  active = 0;
  env_statics();
  ACQ(&sync_end);
}

void
__cyg_profile_func_enter(void *fn, void *site) {
  (void)fn;
  (void)site;
  if (active && cfg.yield_on_fn && my_tid >= 0)
    sched_point("function");
}

void
__cyg_profile_func_exit(void *fn, void *site) {
  (void)fn;
  (void)site;
}

/* ------------------------------------------------------------------ */
/* Locks                                                                */
/* ------------------------------------------------------------------ */

#define NLK 128
struct lk {
  void *addr;
  int kind;                /* 1 mutex, 2 rwlock, 3 cond */
  int live;
  int writer;              /* holder + 1, or 0 */
  int readers[MAXTHREADS + 1];
  int nreaders;
  int wwait;
  int proc;
  long seq;                /* condition variables */
  char syncw, syncr;       /* happens-before objects */
};
static struct lk lk[NLK];

static struct lk *
lk_find(void *p, int kind, const char *what) {
  int i;
  for (i = 0; i < NLK; i++)
    if (lk[i].live && lk[i].addr == p && (lk[i].proc == env_proc() || !env_is_static(p)))
      return &lk[i];
  if (kind == 0)
    return NULL;
  /* Static initialisers: all zero bytes. */
  for (i = 0; i < (int)sizeof(pthread_mutex_t); i++)
    if (((char *)p)[i])
      mc_fail("%s on a lock that is not initialised (or already destroyed)", what);
  for (i = 0; i < NLK; i++)
    if (!lk[i].live) {
      memset(&lk[i], 0, sizeof(lk[i]));
      lk[i].addr = p;
      lk[i].live = 1;
      lk[i].kind = kind;
      lk[i].proc = env_proc();
      return &lk[i];
    }
  mc_internal("too many locks");
}

static void
lk_init(void *p, int kind) {
  int i;
  struct lk *l = lk_find(p, 0, "");
  if (l)
    l->live = 0;
  for (i = 0; i < NLK; i++)
    if (!lk[i].live)
      break;
  if (i == NLK)
    mc_internal("too many locks");
  memset(&lk[i], 0, sizeof(lk[i]));
  lk[i].addr = p;
  lk[i].live = 1;
  lk[i].kind = kind;
  lk[i].proc = env_proc();
  memset(p, 0x5a, kind == 1 ? sizeof(pthread_mutex_t) : kind == 2 ? sizeof(pthread_rwlock_t) : sizeof(pthread_cond_t));
}

static void
lk_destroy(void *p, int kind) {
  struct lk *l = lk_find(p, kind, "destroy");
  if (l->writer || l->nreaders)
    mc_fail("a lock is destroyed while held");
  ACQ(&l->syncw);
  ACQ(&l->syncr);
  l->live = 0;
}

static int
can_write(void *arg) {
  struct lk *l = arg;
  return l->writer == 0 && l->nreaders == 0;
}

static int
can_read(void *arg) {
  struct lk *l = arg;
  return l->writer == 0 && !(cfg.writer_pref && active && l->wwait > 0);
}

static int
lk_wr(void *p, int kind, int try) {
  struct lk *l;
  int me;
  env_enter();
  lock_point(kind == 1 ? "mutex lock" : "write lock");
  l = lk_find(p, kind, "lock");
  me = my_tid + 1;
  if (l->writer == me + 1 && kind == 2) {
    env_leave();
    return EDEADLK;
  }
  if (!can_write(l)) {
    if (try) {
      env_leave();
      return EBUSY;
    }
    l->wwait += 1;
    sched_wait(kind == 1 ? "a mutex" : "a write lock", can_write, l);
    l->wwait -= 1;
  }
  if (!l->live)
    mc_fail("a thread waited for a lock that was destroyed");
  l->writer = me + 1;
  env_leave();
  ACQ(&l->syncw);
  ACQ(&l->syncr);
  return 0;
}

static int
lk_rd(void *p, int try) {
  struct lk *l;
  int me;
  env_enter();
  lock_point("read lock");
  l = lk_find(p, 2, "lock");
  me = my_tid + 1;
  if (l->writer == me + 1) {
    env_leave();
    return EDEADLK;
  }
  if (!can_read(l)) {
    if (try) {
      env_leave();
      return EBUSY;
    }
    sched_wait("a read lock", can_read, l);
  }
  if (!l->live)
    mc_fail("a thread waited for a lock that was destroyed");
  l->readers[me] += 1;
  l->nreaders += 1;
  env_leave();
  ACQ(&l->syncw);
  return 0;
}

static int
lk_un(void *p, int kind) {
  struct lk *l;
  int me;
  env_enter();
  l = lk_find(p, kind, "unlock");
  me = my_tid + 1;
  env_leave();
  if (l->writer == me + 1) {
    REL(&l->syncw);
    l->writer = 0;
  } else if (l->readers[me] > 0) {
    REL(&l->syncr);
    l->readers[me] -= 1;
    l->nreaders -= 1;
  } else if (l->nreaders > 0 && kind == 2) {
    /* Another thread's read lock (an iterator handed over): tolerated. */
    int i;
    REL(&l->syncr);
    for (i = 0; i <= MAXTHREADS; i++)
      if (l->readers[i] > 0) {
        l->readers[i] -= 1;
        break;
      }
    l->nreaders -= 1;
  } else {
    mc_fail("unlock of a lock the thread does not hold");
  }
  env_enter();
  lock_point("unlock");
  env_leave();
  return 0;
}

int hx_pthread_mutex_init(void *m, const void *a) { (void)a; env_enter(); lk_init(m, 1); env_leave(); return 0; }
int hx_pthread_mutex_destroy(void *m) { env_enter(); lk_destroy(m, 1); env_leave(); return 0; }
int hx_pthread_mutex_lock(void *m) { return lk_wr(m, 1, 0); }
int hx_pthread_mutex_trylock(void *m) { return lk_wr(m, 1, 1); }
int hx_pthread_mutex_unlock(void *m) { return lk_un(m, 1); }
int hx_pthread_rwlock_init(void *m, const void *a) { (void)a; env_enter(); lk_init(m, 2); env_leave(); return 0; }
int hx_pthread_rwlock_destroy(void *m) { env_enter(); lk_destroy(m, 2); env_leave(); return 0; }
int hx_pthread_rwlock_rdlock(void *m) { return lk_rd(m, 0); }
int hx_pthread_rwlock_tryrdlock(void *m) { return lk_rd(m, 1); }
int hx_pthread_rwlock_wrlock(void *m) { return lk_wr(m, 2, 0); }
int hx_pthread_rwlock_trywrlock(void *m) { return lk_wr(m, 2, 1); }
int hx_pthread_rwlock_unlock(void *m) { return lk_un(m, 2); }
int hx_pthread_spin_init(void *m, int s) { (void)s; env_enter(); lk_init(m, 1); env_leave(); return 0; }
int hx_pthread_spin_destroy(void *m) { return hx_pthread_mutex_destroy(m); }
int hx_pthread_spin_lock(void *m) { return lk_wr(m, 1, 0); }
int hx_pthread_spin_unlock(void *m) { return lk_un(m, 1); }

struct cwait { struct lk *c; long seq; };
static int
signalled(void *arg) {
  struct cwait *w = arg;
  return w->c->seq > w->seq;
}

int hx_pthread_cond_init(void *c, const void *a) { (void)a; env_enter(); lk_init(c, 3); env_leave(); return 0; }
int hx_pthread_cond_destroy(void *c) { env_enter(); lk_destroy(c, 3); env_leave(); return 0; }
int
hx_pthread_cond_wait(void *c, void *m) {
  struct lk *l;
  struct cwait w;
  env_enter();
  l = lk_find(c, 3, "wait");
  w.c = l;
  w.seq = l->seq;
  env_leave();
  lk_un(m, 1);
  env_enter();
  if (!signalled(&w))
    sched_wait("a condition", signalled, &w);
  env_leave();
  return lk_wr(m, 1, 0);
}
/* Signal wakes everybody: spurious wake-ups are allowed. */
int
hx_pthread_cond_broadcast(void *c) {
  struct lk *l;
  env_enter();
  l = lk_find(c, 3, "signal");
  l->seq += 1;
  lock_point("signal");
  env_leave();
  return 0;
}
int hx_pthread_cond_signal(void *c) { return hx_pthread_cond_broadcast(c); }
int hx_pthread_once(int *o, void (*fn)(void)) { if (!*o) { *o = 2; fn(); } return 0; }
int hx_sched_yield(void) { sched_point("yield"); return 0; }
int hx_usleep(unsigned n) { (void)n; sched_point("yield"); return 0; }
unsigned hx_sleep(unsigned n) { (void)n; sched_point("yield"); return 0; }
int hx_nanosleep(const void *a, void *b) { (void)a; (void)b; sched_point("yield"); return 0; }
int hx_pthread_rwlock_clockrdlock(void *m, int c, const void *t) { (void)c; (void)t; return lk_rd(m, 0); }
int hx_pthread_rwlock_clockwrlock(void *m, int c, const void *t) { (void)c; (void)t; return lk_wr(m, 2, 0); }
int hx_pthread_spin_trylock(void *m) { return lk_wr(m, 1, 1); }
unsigned long hx_pthread_self(void) { return 1000 + my_tid; }

long
sched_locks_held(void) {
  long n = 0;
  int i;
  for (i = 0; i < NLK; i++)
    if (lk[i].live)
      n += (lk[i].writer != 0) + lk[i].nreaders;
  return n;
}

void
sched_reset_locks(int proc) {
  int i;
  for (i = 0; i < NLK; i++)
    if (lk[i].live && (proc < 0 || lk[i].proc == proc))
      lk[i].live = 0;
}

void sched_init(void) { }
