/* C12 - linearizability */
#include "conc.h"
#include "fault.h"

static void
finish(int n, int item) {
  struct model fin;
  struct obs *e = &crec[0][0].obs;
  conc_linearize(n, &fin);
  mc_state(model_hash(&fin) ^ mc_hash(item, e, sizeof(*e)));
  mc_trans(prog[0].n + prog[1].n + (n > 2 ? prog[2].n : 0));
  db_end(&fin);
}

/* Pairs of calls */
static long
pair_items(void) {
  const struct op *a;
  long n = conc_alphabet(&a);
  return n * n * CONC_SETUPS;
}
static int
decode(long item, int *setup) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y;
  *setup = item % CONC_SETUPS;
  item /= CONC_SETUPS;
  x = item / n;
  y = item % n;
  if (y < x)
    return 0;
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  /* one and the same slot may not be filled twice */
  return !(a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW);
}
static void
pair_run(long item) {
  int s;
  if (!decode(item, &s))
    mc_prune();
  conc_setup(s);
  conc_run(2, mc_thorough ? 4 : 2, 0, 0, mc_choose(2));
  finish(2, item);
}
PART(c12_pair, "C12", "c12-pair", pair_items, pair_run,
  "every pair of calls of a 23-call alphabet (database, old roots, shared transactions, iterations) in two threads, on a cold, a split and a warm database: every schedule of lock operations with up to 2 (thorough 4) preemptions, under both lock policies",
  {NULL}, FL_ASAN, 0);

/* In the Windows port, whose read-write lock is its own. */
static void
win_pair_run(long item) {
  int s;
  if (!decode(item, &s))
    mc_prune();
  if (!mc_thorough && s != 0)
    mc_prune();
  conc_setup(s);
  conc_run(2, mc_thorough ? 4 : 2, 0, 0, 0);
  finish(2, item);
}
PART(c27_pair, "C27", "c27-pair", pair_items, win_pair_run,
  "every pair of calls of a 23-call alphabet in two threads, on a cold (thorough: also a split and a warm) database: every schedule of lock operations with up to 2 (thorough 4) preemptions",
  {NULL}, FL_WIN, 0);

/* Finer: also system calls and function entries */
static void
fine_run(long item) {
  int s;
  if (!decode(item, &s))
    mc_prune();
  if (!mc_thorough && s != 0)
    mc_prune();
  conc_setup(s);
  conc_run(2, mc_thorough ? 2 : 1, 1, 1, 0);
  finish(2, item);
}
PART(c12_fine, "C12", "c12-fine", pair_items, fine_run,
  "the same pairs, with a preemption possible at every function entry and system call as well: every schedule with up to 1 (thorough 2) preemptions",
  {NULL}, FL_AFN, 0);

/* Two calls against one, over the changing calls */
static const int hot[] = {0, 1, 2, 3, 9, 10, 11, 13, 14, 15, 19, 6, 7};
#define NHOT ((int)ARRAY_SIZE(hot))
static long
two_items(void) { return (long)NHOT * NHOT * NHOT; }
static void
two_run(long item) {
  const struct op *a;
  conc_alphabet(&a);
  prog[0].n = 2;
  prog[0].op[0] = a[hot[item % NHOT]];
  prog[0].op[1] = a[hot[item / NHOT % NHOT]];
  prog[1].n = mc_thorough ? 2 : 1;
  prog[1].op[0] = a[hot[item / NHOT / NHOT]];
  if (mc_thorough)
    prog[1].op[1] = a[hot[mc_choose(NHOT)]];
  conc_setup(mc_thorough ? mc_choose(2) : 0);
  conc_run(2, 2, 0, 0, 0);
  finish(2, item);
}
PART(c12_two, "C12", "c12-two", two_items, two_run,
  "two calls in one thread against one (thorough: two) in another, over 13 calls: every schedule with up to 2 preemptions",
  {NULL}, FL_ASAN, 0);

/* Three threads */
static long
three_items(void) { return (long)NHOT * NHOT * NHOT; }
static void
three_run(long item) {
  const struct op *a;
  int x = item % NHOT, y = item / NHOT % NHOT, z = item / NHOT / NHOT, i;
  conc_alphabet(&a);
  if (y < x || z < y)
    mc_prune();
  for (i = 0; i < 3; i++)
    prog[i].n = 1;
  prog[0].op[0] = a[hot[x]];
  prog[1].op[0] = a[hot[y]];
  prog[2].op[0] = a[hot[z]];
  conc_setup(mc_thorough ? mc_choose(2) : 0);
  conc_run(3, mc_thorough ? 2 : 1, 0, 0, 0);
  finish(3, item);
}
PART(c12_three, "C12", "c12-three", three_items, three_run,
  "three threads with one call each, over 13 calls: every schedule with up to 1 (thorough 2) preemptions",
  {NULL}, FL_ASAN, 0);
PART(c27_three, "C27", "c27-three", three_items, three_run,
  "three threads with one call each, over 13 calls: every schedule with up to 1 (thorough 2) preemptions",
  {NULL}, FL_WIN, 0);

/* Direct writes: all that succeed are there. */
static long writes_items(void) { return 27 * 2; }
static void
writes_run(long item) {
  const struct op *a;
  int i, j, x = item % 27;
  static const int w[3] = {0, 1, 2};
  conc_alphabet(&a);
  prog[0].n = 2;
  prog[1].n = 2;
  prog[0].op[0] = a[w[x % 3]];
  prog[0].op[1] = a[w[x / 3 % 3]];
  prog[1].op[0] = a[w[x / 9]];
  prog[1].op[1] = a[w[mc_choose(3)]];
  conc_setup(item / 27);
  for (i = 0; i < 2; i++)
    for (j = 0; j < 2; j++)
      if (prog[i].op[j].kind == OP_INS && i == 1)
        prog[i].op[j].val ^= 1;
  conc_run(2, mc_thorough ? 4 : 2, 0, 0, 0);
  finish(2, item);
}
PART(c12_writes, "C12", "c12-writes", writes_items, writes_run,
  "two direct inserts and removes in each of two threads: every schedule with up to 2 (thorough 4) preemptions",
  {NULL}, FL_ASAN, 0);

/* A shared iterator */
static urkel_iter_t *sit;
static struct { uint8_t key[32]; int val; long t0, t1; int ok, err; } got[2][8];
static int ngot[2];
static void
iter_body(int tid) {
  uint8_t val[1024];
  size_t len;
  int i, v;
  for (i = 0; i < 6; i++) {
    sched_point("call");
    got[tid][i].t0 = sched_clock();
    len = 99;
    got[tid][i].ok = urkel_iter_next(sit, got[tid][i].key, val, &len);
    got[tid][i].err = urkel_errno;
    got[tid][i].t1 = sched_clock();
    ngot[tid]++;
    if (!got[tid][i].ok)
      break;
    got[tid][i].val = -1;
    for (v = 0; v < conc_u.nv; v++)
      if (conc_u.len[v] == len && memcmp(conc_u.val[v], val, len) == 0)
        got[tid][i].val = v;
  }
}
static int
ilin(const int *exp, int n, int at, int p0, int p1) {
  int t;
  if (p0 == ngot[0] && p1 == ngot[1])
    return at >= n;
  for (t = 0; t < 2; t++) {
    int p = t ? p1 : p0, q = t ? p0 : p1;
    if (p == ngot[t])
      continue;
    if (q < ngot[!t] && got[!t][q].t1 < got[t][p].t0)
      continue;
    if (at < n) {
      if (!got[t][p].ok || memcmp(got[t][p].key, conc_u.key[exp[at]], 32) != 0)
        continue;
      if (got[t][p].val < 0)
        continue;
    } else if (got[t][p].ok || got[t][p].err != URKEL_EITEREND) {
      continue;
    }
    if (ilin(exp, n, at + 1, p0 + !t, p1 + t))
      return 1;
  }
  return 0;
}
static long iter_items(void) { return 3 * 2; }
static void
iter_run(long item) {
  struct sched_cfg c;
  const oc *cont;
  int exp[4], n = 0, i;
  conc_setup(item % 3);
  if (item / 3) {
    sit = urkel_iter_create(R[0].tx[0]);
    cont = &conc_m.tx[0].c;
  } else {
    sit = urkel_iterate(R[0].db, NULL);
    cont = &conc_m.cur;
  }
  if (sit == NULL)
    mc_fail("no iterator");
  for (i = 0; i < conc_u.nk; i++)
    if (cont->c[conc_u.order[i]] >= 0)
      exp[n++] = conc_u.order[i];
  ngot[0] = ngot[1] = 0;
  memset(&c, 0, sizeof(c));
  c.nthreads = 2;
  c.preemptions = mc_thorough ? 6 : 3;
  sched_run(&c, iter_body);
  for (i = 0; i < ngot[0] + ngot[1]; i++) {
    int t = i >= ngot[0], j = t ? i - ngot[0] : i, k;
    if (got[t][j].ok) {
      for (k = 0; k < conc_u.nk; k++)
        if (memcmp(conc_u.key[k], got[t][j].key, 32) == 0)
          break;
      if (k == conc_u.nk || cont->c[k] != got[t][j].val)
        mc_fail("a shared iterator returned a wrong record");
    }
  }
  if (!ilin(exp, n, 0, 0, 0))
    mc_fail("no order of the calls of two threads on one iterator explains the records they got");
  mc_state(ngot[0] * 8 + ngot[1] + item * 64);
  mc_trans(ngot[0] + ngot[1]);
  urkel_iter_destroy(sit);
  observe(&R[0], &conc_m, OBS_DB | OBS_TX);
  db_end(&conc_m);
}
PART(c12_iter, "C12", "c12-iter", iter_items, iter_run,
  "two threads draining one iterator of the database and of a changed transaction: every schedule with up to 3 (thorough 6) preemptions; each record is returned once, in order",
  {NULL}, FL_ASAN, 0);

/* While a system call fails. */
static void
flt12_run(long item) {
  int s;
  if (!decode(item, &s) || s == 2)
    mc_prune();
  if (!mc_thorough && s != (int)(item / CONC_SETUPS % 2))
    mc_prune();
  conc_setup(s);
  flt_budget = 1;
  flt_fired = flt_munmap = 0;
  flt_begin();
  flt_arm(1, mc_thorough);
  conc_run(2, mc_thorough ? 2 : 1, 0, 0, 0);
  flt_arm(0, 0);
  if (!flt_fired || flt_munmap) /* what cannot be unmapped stays mapped */
    mc_prune();
  conc_faults = 1;
  finish(2, item);
  conc_faults = 0;
}
PART(c12_fault, "C12", "c12-fault", pair_items, flt12_run,
  "every pair of calls of the alphabet in two threads while one system call fails, is interrupted or comes up short (every one): every schedule with up to 1 (thorough 2, lasting failures too) preemptions; what fails has no effect, the rest fits one order",
  {"faults"}, FL_ASAN, 0);
