/* C14 - data races (thread sanitizer; the hand-overs of the scheduler are
 * invisible to it, only the library's own locks order memory accesses) */
#include "conc.h"
#include "fault.h"

static void
done(int n, long item) {
  int t;
  for (t = 0; t < n; t++)
    mc_trans(prog[t].n);
  mc_state(mc_hash(item, &crec[0][0].obs, sizeof(struct obs)) ^ mc_hash(3, &crec[1][0].obs, sizeof(struct obs)));
  real_close(&R[0]);
}

static long
pair_items(void) {
  const struct op *a;
  long n = conc_alphabet(&a);
  return n * n * CONC_SETUPS;
}
static void
pair_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y, s = item % CONC_SETUPS;
  x = item / CONC_SETUPS / n;
  y = item / CONC_SETUPS % n;
  if (y < x || (a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW))
    mc_prune();
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  conc_setup(s);
  conc_run(2, mc_thorough ? 3 : 2, 0, 0, 0);
  done(2, item);
}
PART(c14_pair, "C14", "c14-pair", pair_items, pair_run,
  "every pair of calls of a 23-call alphabet in two threads, on a cold, a split and a warm database: every schedule of lock operations with up to 2 (thorough 3) preemptions under the race detector",
  {NULL}, FL_TSAN, 0);

/* In the Windows port. */
static void
win_race_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y, s = item % CONC_SETUPS;
  x = item / CONC_SETUPS / n;
  y = item / CONC_SETUPS % n;
  if (y < x || (a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW))
    mc_prune();
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  conc_setup(s);
  conc_run(2, mc_thorough ? 3 : 1, 0, 0, 0);
  done(2, item);
}
PART(c27_race, "C27", "c27-race", pair_items, win_race_run,
  "every pair of calls of a 23-call alphabet in two threads: every schedule of lock operations with up to 1 (thorough 3) preemptions under the race detector",
  {NULL}, FL_WINT, 0);

static const int hot[] = {0, 2, 3, 4, 6, 7, 9, 10, 12, 13, 14, 15, 16, 17, 18};
#define NHOT ((int)ARRAY_SIZE(hot))
static long three_items(void) { return (long)NHOT * NHOT * NHOT; }
static void
three_run(long item) {
  const struct op *a;
  int x = item % NHOT, y = item / NHOT % NHOT, z = item / NHOT / NHOT, i;
  conc_alphabet(&a);
  if (y < x || z < y)
    mc_prune();
  for (i = 0; i < 3; i++)
    prog[i].n = 1;
  prog[0].op[0] = a[hot[x]];
  prog[1].op[0] = a[hot[y]];
  prog[2].op[0] = a[hot[z]];
  conc_setup(mc_thorough ? mc_choose(3) : 0);
  conc_run(3, mc_thorough ? 2 : 1, 0, 0, 0);
  done(3, item);
}
PART(c14_three, "C14", "c14-three", three_items, three_run,
  "three threads with one call each of 15, every schedule with 1 (thorough 2) preemptions",
  {NULL}, FL_TSAN, 0);
PART(c27_race3, "C27", "c27-race3", three_items, three_run,
  "three threads with one call each of 15, every schedule with 1 (thorough 2) preemptions",
  {NULL}, FL_WINT, 0);

static long two_items(void) { return (long)NHOT * NHOT * NHOT; }
static void
two_run(long item) {
  const struct op *a;
  conc_alphabet(&a);
  prog[0].n = 2;
  prog[0].op[0] = a[hot[item % NHOT]];
  prog[0].op[1] = a[hot[item / NHOT % NHOT]];
  prog[1].n = 1;
  prog[1].op[0] = a[hot[item / NHOT / NHOT]];
  conc_setup(mc_thorough ? mc_choose(3) : 0);
  conc_run(2, mc_thorough ? 2 : 1, 0, 0, 0);
  done(2, item);
}
PART(c14_two, "C14", "c14-two", two_items, two_run,
  "two calls in one thread against one in another, of 15, every schedule with 1 (thorough 2) preemptions",
  {NULL}, FL_TSAN, 0);

/* Iterators, shared and not */
static urkel_iter_t *sit;
static int other, mode;
static void
iter_body(int tid) {
  uint8_t key[32], val[1024];
  size_t len;
  const struct op *a;
  struct obs e;
  int i;
  conc_alphabet(&a);
  if (tid == 1 && mode != 0) {
    sched_point("call");
    if (mode == 2)
      for (i = 0; i < 6 && urkel_iter_next(sit, key, val, &len); i++)
        sched_point("call");
    else
      real_step(&R[0], &conc_m, &a[other], &e);
    return;
  }
  if (tid == 0 && mode != 2) {
    urkel_iter_t *it;
    sched_point("call");
    it = mode == 1 ? urkel_iter_create(R[0].tx[0]) : urkel_iterate(R[0].db, NULL);
    if (it == NULL)
      mc_fail("no iterator");
    for (i = 0; i < 6 && urkel_iter_next(it, key, val, &len); i++)
      sched_point("call");
    urkel_iter_destroy(it);
    return;
  }
  if (tid == 0)
    for (i = 0; i < 6 && urkel_iter_next(sit, key, val, &len); i++)
      sched_point("call");
  else
    real_step(&R[0], &conc_m, &a[other], &e);
}
static long
iter_items(void) {
  const struct op *a;
  return 3 * CONC_SETUPS * conc_alphabet(&a);
}
static void
iter_run(long item) {
  struct sched_cfg c;
  mode = item % 3;
  other = item / 3 / CONC_SETUPS;
  if (mode == 2 && other > 1)
    mc_prune();
  conc_setup(item / 3 % CONC_SETUPS);
  if (mode == 2)
    sit = other ? urkel_iter_create(R[0].tx[0]) : urkel_iterate(R[0].db, NULL);
  memset(&c, 0, sizeof(c));
  c.nthreads = 2;
  c.preemptions = mc_thorough ? 3 : 2;
  sched_run(&c, iter_body);
  if (mode == 2)
    urkel_iter_destroy(sit);
  mc_trans(2);
  mc_state(item);
  real_close(&R[0]);
}
PART(c14_iter, "C14", "c14-iter", iter_items, iter_run,
  "an iteration of the database or of a shared transaction against every call, and two threads on one iterator: every schedule with up to 2 (thorough 3) preemptions",
  {NULL}, FL_TSAN, 0);

/* Databases of their own */
static void
own_body(int tid) {
  char path[16];
  uint8_t root[32], *proof, val[1024], h[32];
  size_t len, vlen;
  int i, ex;
  urkel_t *db;
  urkel_tx_t *tx;
  snprintf(path, sizeof(path), "/w/o%d", tid);
  for (i = 0; i < 2; i++) {
    sched_point("call");
    db = urkel_open(path);
    if (db == NULL)
      mc_fail("open fails: error %d", urkel_errno);
    sched_point("call");
    urkel_insert(db, conc_u.key[tid], conc_u.val[tid], conc_u.len[tid]);
    tx = urkel_tx_create(db, NULL);
    urkel_tx_insert(tx, conc_u.key[2], conc_u.val[0], conc_u.len[0]);
    sched_point("call");
    urkel_tx_commit(tx);
    urkel_tx_destroy(tx);
    urkel_root(db, root);
    sched_point("call");
    if (!urkel_prove(db, &proof, &len, conc_u.key[tid], NULL))
      mc_fail("prove fails: error %d", urkel_errno);
    sched_point("call");
    if (!urkel_verify(&ex, val, &vlen, proof, len, conc_u.key[tid], root) || !ex)
      mc_fail("verify fails");
    urkel_free(proof);
    urkel_hash(h, val, vlen);
    sched_point("call");
    urkel_remove(db, conc_u.key[tid]);
    urkel_close(db);
  }
  sched_point("call");
  if (!urkel_destroy(path))
    mc_fail("destroy fails");
}
static long own_items(void) { return 1; }
static void
own_run(long item) {
  struct sched_cfg c;
  conc_setup(0);
  real_close(&R[0]);
  memset(&c, 0, sizeof(c));
  c.nthreads = 2;
  c.preemptions = mc_thorough ? 2 : 1;
  sched_run(&c, own_body);
  mc_trans(2);
  mc_state(item);
}
PART(c14_own, "C14", "c14-own", own_items, own_run,
  "two threads with a database each, opening, writing, proving, verifying, closing and destroying: every schedule with up to 1 (thorough 2) preemptions",
  {NULL}, FL_TSAN, 0);

/* While a system call fails. */
static void
flt14_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y, s = item % CONC_SETUPS;
  x = item / CONC_SETUPS / n;
  y = item / CONC_SETUPS % n;
  if (y < x || s == 2 || (a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW))
    mc_prune();
  if (!mc_thorough && s != (x + y) % 2)
    mc_prune();
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  conc_setup(s);
  flt_budget = 1;
  flt_fired = flt_munmap = 0;
  flt_begin();
  flt_arm(1, 0);
  conc_run(2, mc_thorough ? 2 : 1, 0, 0, 0);
  flt_arm(0, 0);
  if (!flt_fired)
    mc_prune();
  done(2, item);
}
PART(c14_fault, "C14", "c14-fault", pair_items, flt14_run,
  "every pair of calls of the alphabet in two threads while one system call fails, is interrupted or comes up short (every one): every schedule with up to 1 (thorough 2) preemptions under the race detector",
  {"faults"}, FL_TSAN, 0);
