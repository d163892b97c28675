/* C13 - deadlock */
#include "conc.h"
#include "fault.h"

static void
done(int n, long item) {
  int t;
  struct op o;
  long held = sched_locks_held();
  if (held)
    mc_fail("%ld locks stay held after all calls have returned", held);
  for (t = 0; t < n; t++)
    mc_trans(prog[t].n);
  mc_state(mc_hash(item, &crec[0][0].obs, sizeof(struct obs)) ^ mc_hash(3, &crec[1][0].obs, sizeof(struct obs)));
  /* still alive */
  memset(&o, 0, sizeof(o));
  if (!urkel_insert(R[0].db, conc_u.key[1], conc_u.val[0], conc_u.len[0]))
    mc_fail("inserting fails afterwards: error %d", urkel_errno);
  real_close(&R[0]);
  check_clean("after closing the database");
}

static long
pair_items(void) {
  const struct op *a;
  long n = conc_alphabet(&a);
  return n * n * 2;
}
static void
pair_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y, s = item % 2;
  x = item / 2 / n;
  y = item / 2 % n;
  if (y < x || (a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW))
    mc_prune();
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  conc_setup(s);
  conc_run(2, mc_thorough ? 4 : 2, 0, 0, mc_choose(2));
  done(2, item);
}
PART(c13_pair, "C13", "c13-pair", pair_items, pair_run,
  "every pair of calls of a 23-call alphabet in two threads, every schedule of lock operations with up to 2 (thorough 4) preemptions, with locks preferring readers and preferring writers",
  {NULL}, FL_ASAN, 0);

/* A call that fails gives back its locks. */
static void
flt13_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y, w, sticky, s = item % 2;
  x = item / 2 / n;
  y = item / 2 % n;
  if (y < x || (a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW))
    mc_prune();
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  if (!mc_thorough && s != (x + y) % 2)
    mc_prune();
  sticky = mc_thorough ? mc_choose(2) : 0;
  w = mc_choose(2);
  conc_setup(s);
  flt_budget = 1;
  flt_fired = flt_munmap = 0;
  flt_begin();
  flt_arm(1, sticky);
  conc_run(2, mc_thorough ? 2 : 1, 0, 0, w);
  flt_arm(0, 0);
  if (!flt_fired || flt_munmap) /* what cannot be unmapped stays mapped */
    mc_prune();
  done(2, item);
}
PART(c13_fault, "C13", "c13-fault", pair_items, flt13_run,
  "every pair of calls of the alphabet in two threads while one system call fails, is interrupted or comes up short (every one): every schedule with up to 1 (thorough 2, lasting failures too) preemptions, with both kinds of locks; all return, nothing stays locked, and the database still works",
  {"faults"}, FL_ASAN, 0);

static long
three_items(void) {
  const struct op *a;
  long n = conc_alphabet(&a);
  return n * n * n;
}
static void
three_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), i, x = item % n, y = item / n % n, z = item / n / n;
  if (y < x || z < y)
    mc_prune();
  if ((a[x].kind == OP_TXNEW) + (a[y].kind == OP_TXNEW) + (a[z].kind == OP_TXNEW) > 1)
    mc_prune();
  for (i = 0; i < 3; i++)
    prog[i].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  prog[2].op[0] = a[z];
  conc_setup(0);
  conc_run(3, mc_thorough ? 2 : 1, 0, 0, mc_choose(2));
  done(3, item);
}
PART(c13_three, "C13", "c13-three", three_items, three_run,
  "every three calls of the alphabet in three threads, every schedule with up to 1 (thorough 2) preemptions, with both kinds of locks",
  {NULL}, FL_ASAN, 0);

/* Iterators held over other calls. */
enum { I_DB, I_OLD, I_TX, NI };
static const int reads[] = {-1, 3, 4, 5, 6, 7, 8, 12, 13, 17, 18, 21, 22};
#define NREADS ((int)ARRAY_SIZE(reads))
struct hold { int kind, read; };
static struct hold hold[MAXTHREADS];
static int holders;
static const struct op *al;
static long outcome;

static void
hold_body(int tid) {
  struct obs e;
  int i;
  if (tid >= holders) {
    for (i = 0; i < prog[tid].n; i++) {
      sched_point("call");
      if (mc_verbose) {
        char a[200];
        op_str(&conc_m, &prog[tid].op[i], a, sizeof(a));
        mc_trace("  thread %d: %s", tid, a);
      }
      real_step(&R[0], &conc_m, &prog[tid].op[i], &e);
    }
    return;
  } else {
    urkel_iter_t *it;
    uint8_t key[32], val[1024], root[32];
    size_t len;
    struct hold *h = &hold[tid];
    sched_point("call");
    mc_trace("  thread %d: iterate %s", tid, h->kind == I_DB ? "the database" : h->kind == I_OLD ? "an old root" : "t0");
    if (h->kind == I_OLD)
      hist_root(&conc_m, 1, root);
    it = h->kind == I_TX ? urkel_iter_create(R[0].tx[0]) : urkel_iterate(R[0].db, h->kind == I_OLD ? root : NULL);
    if (it == NULL)
      mc_fail("no iterator");
    sched_point("call");
    if (urkel_iter_next(it, key, val, &len))
      outcome = outcome * 3 + key[0];
    if (h->read >= 0) {
      sched_point("call");
      if (mc_verbose) {
        char a[200];
        op_str(&conc_m, &al[h->read], a, sizeof(a));
        mc_trace("  thread %d: %s", tid, a);
      }
      real_step(&R[0], &conc_m, &al[h->read], &e);
    }
    sched_point("call");
    urkel_iter_next(it, key, NULL, NULL);
    sched_point("call");
    mc_trace("  thread %d: iter_destroy", tid);
    urkel_iter_destroy(it);
  }
}

static void
hold_go(int n, int pre, int wpref) {
  struct sched_cfg c;
  int t;
  memset(&c, 0, sizeof(c));
  c.nthreads = n;
  c.preemptions = pre;
  c.writer_pref = wpref;
  outcome = 0;
  for (t = 0; t < holders; t++)
    prog[t].n = 0;
  sched_run(&c, hold_body);
}

static long
hold_items(void) {
  const struct op *a;
  return (long)NI * NREADS * conc_alphabet(&a);
}
static void
hold_run(long item) {
  int n = conc_alphabet(&al), wp;
  hold[0].kind = item % NI;
  hold[0].read = reads[item / NI % NREADS];
  prog[1].n = mc_thorough ? 2 : 1;
  prog[1].op[0] = al[item / NI / NREADS];
  if (mc_thorough)
    prog[1].op[1] = al[mc_choose(n)];
  if (hold[0].read == 21)
    for (wp = 0; wp < prog[1].n; wp++)
      if (prog[1].op[wp].kind == OP_TXNEW)
        mc_prune();
  if (mc_thorough && prog[1].op[0].kind == OP_TXNEW && prog[1].op[1].kind == OP_TXNEW)
    mc_prune();
  holders = 1;
  conc_setup(mc_choose(2));
  /* Locks that prefer writers make a read under an iterator wait for a
   * writer that waits for the iterator: nobody can promise that. */
  wp = hold[0].read < 0 ? mc_choose(2) : 0;
  hold_go(2, 2, wp);
  done(2, item + outcome);
}
PART(c13_hold, "C13", "c13-hold", hold_items, hold_run,
  "a thread that holds an iterator of the database, an old root or a shared transaction, and makes any reading call meanwhile, against every call (thorough: two) of another thread: every schedule with up to 2 preemptions",
  {NULL}, FL_ASAN, 0);

static long
hold2_items(void) {
  const struct op *a;
  return (long)NI * NI * NREADS * conc_alphabet(&a);
}
static void
hold2_run(long item) {
  conc_alphabet(&al);
  hold[0].kind = item % NI;
  hold[1].kind = item / NI % NI;
  hold[0].read = reads[item / NI / NI % NREADS];
  hold[1].read = mc_thorough ? reads[mc_choose(NREADS)] : -1;
  prog[2].n = 1;
  prog[2].op[0] = al[item / NI / NI / NREADS];
  if ((hold[0].read == 21) + (hold[1].read == 21) + (prog[2].op[0].kind == OP_TXNEW) > 1)
    mc_prune();
  holders = 2;
  conc_setup(0);
  hold_go(3, 1, 0);
  done(3, item + outcome);
}
PART(c13_hold2, "C13", "c13-hold2", hold2_items, hold2_run,
  "two threads with iterators, one (thorough: both) making a reading call meanwhile, against every call of a third: every schedule with up to 1 preemption",
  {NULL}, FL_ASAN, 0);
