/* C24 - power failures
 *
 * Unlike a killed process (C09), a failing machine also loses what was written
 * but not flushed to stable storage.  Per file, everything up to the last
 * fsync survives; of what follows, any beginning survives, the rest is cut off
 * or reads as zeros.  Directory entries, truncations and the small key file
 * are taken to survive in order, as journaling file systems have it.
 *
 * With URKEL_FSYNC every commit is flushed and none may be lost; without it,
 * a data file is flushed before the next one is begun, so whatever was
 * committed in completed files survives. */
#include <setjmp.h>
#include "seq.h"
#include "fault.h"

#ifdef MC_FSYNC
#define ALWAYS 1
#else
#define ALWAYS 0
#endif

#define MAXCOM 24
static jmp_buf jb;
static int budget, armed;
static char fail_at[200];
static int ncom;
static struct { oc c; int file; long end; } com[MAXCOM];

static void on_crash(void) { longjmp(jb, 1); }

static void
on_sys(const struct sc *sc, struct act *a) {
  if (!armed || budget == 0 || !(sc->mutating || sc->kind == SC_FSYNC))
    return;
  if (mc_choose(2) == 0)
    return;
  budget -= 1;
  mc_count(0, 1);
  a->crash = 1;
  snprintf(fail_at, sizeof(fail_at), "before %s(%s)", sc_names[sc->kind], sc->path);
}

static void
data_path(char *p, size_t n, int f) {
  snprintf(p, n, "%s/%010d", db_path, f);
}

static int
last_file(void) {
  char p[300];
  int f;
  for (f = 1;; f++) {
    data_path(p, sizeof(p), f);
    if (!fs_exists(p))
      return f - 1;
  }
}

static void
note_commit(const oc *c) {
  char p[300];
  if (ncom == MAXCOM)
    mc_internal("too many commits");
  com[ncom].c = *c;
  com[ncom].file = last_file();
  data_path(p, sizeof(p), com[ncom].file);
  com[ncom].end = com[ncom].file ? fs_size(p) : 0;
  ncom += 1;
}

/* Returns the oldest commit that may be the newest now. */
static int
power_off(void) {
  char p[300];
  uint8_t zero[9000];
  int f, n = last_file(), min = 0, i;
  memset(zero, 0, sizeof(zero));
  for (i = ncom - 1; i > 0; i--) {
    data_path(p, sizeof(p), com[i].file);
    if (ALWAYS || fs_synced(p) >= com[i].end)
      break;
    /* completed: something has been written to a later one */
    for (f = com[i].file + 1; f <= n; f++) {
      data_path(p, sizeof(p), f);
      if (fs_size(p) > 0)
        break;
    }
    if (f <= n)
      break;
  }
  min = i;
  for (f = 1; f <= n; f++) {
    long size, s, cut;
    data_path(p, sizeof(p), f);
    size = fs_size(p);
    s = fs_synced(p);
    if (s >= size)
      continue;
    if (f == n || size - s < 4) {
      if (mc_thorough) {
        cut = s + mc_choose(size - s + 1);
      } else { /* around the places of records */
        long at[200];
        int k = 0;
        for (cut = s; cut <= size; cut++)
          if (cut == s || cut >= size - 1 || cut % 38 == 0 || cut % 38 == 37)
            if (k < 200)
              at[k++] = cut;
        cut = at[mc_choose(k)];
      }
    } else {
      i = mc_choose(4);
      cut = i == 0 ? s : i == 1 ? size : i == 2 ? size - 1 : s + (size - s) / 2;
    }
    if (cut < size && (mc_thorough || cut % 38 == 0) && mc_choose(2)) {
      if (size - cut > (long)sizeof(zero))
        mc_internal("large tail");
      fs_pwrite(p, zero, size - cut, cut);
      snprintf(fail_at + strlen(fail_at), sizeof(fail_at) - strlen(fail_at), ", %s zeros from %ld on", p + strlen(db_path) + 1, cut);
    } else if (cut < size) {
      fs_truncate(p, cut);
      snprintf(fail_at + strlen(fail_at), sizeof(fail_at) - strlen(fail_at), ", %s cut to %ld", p + strlen(db_path) + 1, cut);
    }
    mc_count(1, 1);
  }
  /* what is left is on the disk */
  fs_all_synced();
  return min;
}

struct pcfg {
  int depth, tdepth, fails, tfails;
  uint32_t mask;
  const int *sizes;
  int txn;
};
#define PFAN 24

static long
p_items(const struct pcfg *c) {
  int n = 0;
  while (c->sizes[n])
    n++;
  return (long)n * 2 * PFAN;
}

static void
shows(struct real *r, const struct model *m, oc *c) {
  struct op o;
  struct obs e;
  memset(&o, 0, sizeof(o));
  o.kind = OP_ITER;
  o.hist = H_CUR;
  real_step(r, m, &o, &e);
  if (!e.ret)
    mc_fail("after a power failure %s: iterating fails with error %d", fail_at, e.err);
  *c = e.c;
}

static void
p_run(const struct pcfg *c, long item) {
  static struct universe u;
  static int made = -1;
  struct model m;
  struct op ops[64], o;
  oc pend, got, was;
  volatile int unclear = 0, have_pend = 0, i, round, min, failed;
  int n, pick, ui = item / PFAN % 2, si = item / PFAN / 2, first = item % PFAN, k;
  int depth = mc_thorough ? c->tdepth : c->depth;
  struct obs e;
  struct real *r = &R[0];

  if (made != ui) {
    ou_small(&u, ui ? 1 : 3, 4);
    made = ui;
  }
  env_limits_fast();
  urkel_verify_max_file_size = c->sizes[si];
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  ncom = 0;
  note_commit(&m.disk);
  budget = mc_thorough ? c->tfails : c->fails;
  env_hook = on_sys;
  env_crash = on_crash;
  memset(&pend, -1, sizeof(pend));
  for (round = 0;; round++) {
    strcpy(fail_at, "at the end");
    failed = 0;
    if (setjmp(jb) == 0) {
      for (i = round ? 0 : -1; i < (round ? 1 : depth); i++) {
        memset(&o, 0, sizeof(o));
        have_pend = 0;
        if (i < 0) {
          o.kind = OP_OPEN;
        } else {
          n = ops_enabled(&m, c->mask, c->txn ? 1 : 0, 2, 2, ops, 64);
          if (i == 0 && round == 0) {
            if (n >= PFAN)
              mc_internal("more first operations (%d) than items", n);
            if (first > n)
              mc_prune();
            pick = first - 1;
          } else {
            pick = mc_choose(n + 1) - 1;
          }
          if (pick < 0)
            break;
          o = ops[pick];
        }
        {
          struct model t = m;
          model_step(&t, &o, &e);
          have_pend = memcmp(&t.disk, &m.disk, sizeof(oc)) != 0;
          pend = t.disk;
        }
        was = m.disk;
        armed = 1;
        step(r, &m, &o);
        armed = 0;
        mc_trans(1);
        have_pend = 0;
        if (memcmp(&was, &m.disk, sizeof(oc)) != 0)
          note_commit(&m.disk);
        if (i < 0 && c->txn) {
          o.kind = OP_TXNEW;
          o.hist = H_CUR;
          step(r, &m, &o);
        }
      }
    } else {
      failed = 1;
      if (round == 0 && i < 0 && first > 0)
        mc_prune(); /* the same as the first item's */
    }
    armed = 0;
    if (!failed) {
      if (budget == 0)
        break;
      budget -= 1;
      mc_count(0, 1);
    }
    env_proc_exit(0);
    memset(R, 0, sizeof(R));
    min = power_off();
    if (mc_verbose) {
      mc_trace("  power fails %s", fail_at);
      fs_dump();
    }
    /* opened again, perhaps failing once more meanwhile */
    for (;;) {
      char before[200];
      snprintf(before, sizeof(before), "%s", fail_at);
      if (setjmp(jb) == 0) {
        armed = 1;
        r->db = urkel_open(db_path);
        armed = 0;
        break;
      }
      armed = 0;
      env_proc_exit(0);
      memset(R, 0, sizeof(R));
      k = power_off();
      (void)k; /* recovery writes nothing that could be lost */
      snprintf(before + strlen(before), sizeof(before) - strlen(before), "; %s", fail_at);
      snprintf(fail_at, sizeof(fail_at), "%s", before);
    }
    if (r->db == NULL)
      mc_fail("after a power failure %s the database does not open: error %d", fail_at, urkel_errno);
    memset(m.tx, 0, sizeof(m.tx));
    m.open = 1;
    shows(r, &m, &got);
    for (k = min; k < ncom; k++)
      if (memcmp(&com[k].c, &got, sizeof(oc)) == 0)
        break;
    if (k == ncom) {
      if (!have_pend || memcmp(&pend, &got, sizeof(oc)) != 0)
        mc_fail("after a power failure %s the database shows none of the states it may: commits %d to %d are allowed", fail_at, min, ncom - 1);
      note_commit(&got);
      have_pend = 0;
    }
    if (k < ncom - 1)
      mc_count(2, 1);
    /* the same contents twice: it may be either, and the later roots may
       be known or not */
    for (n = k + 1; n < ncom; n++)
      if (memcmp(&com[n].c, &got, sizeof(oc)) == 0)
        unclear = 1;
    if (have_pend && memcmp(&pend, &got, sizeof(oc)) == 0)
      unclear = 1;
    ncom = k + 1;
    model_init(&m, &u);
    m.open = m.there = 1;
    for (k = 1; k < ncom; k++)
      model_hist_add(&m, &com[k].c);
    m.disk = m.cur = got;
    observe(r, &m, OBS_DB | OBS_HIST);
    if (ncom > 1 && com[ncom - 1].file == 0)
      mc_internal("no file");
    mc_state(model_hash(&m) ^ env_fs_hash());
    memset(&o, 0, sizeof(o));
    if (c->txn) {
      o.kind = OP_TXNEW;
      o.hist = H_CUR;
      step(r, &m, &o);
    }
    if (budget == 0)
      break;
  }
  env_hook = NULL;
  /* and it works on */
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  o.key = 3;
  o.val = 1;
  step(r, &m, &o);
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  if (!unclear)
    observe_disk(&m, urkel_verify_max_file_size < 100000 ? (long)urkel_verify_max_file_size : 0);
}

#define CNTF {"power failures", "files with data lost", "fell back to an older commit", "failed commits"}
#define CNT {"power failures", "files with data lost", "fell back to an older commit"}
static const int sizes[] = {114, 120, 133, 152, 171, 200, 228, 260, 300, 100000, 0};
static const int few[] = {120, 171, 228, 100000, 0};
static const struct pcfg db_cfg = {
  .depth = 3, .tdepth = 4, .fails = 1, .tfails = 1, .sizes = few,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN) | A(OP_INJ)
};
static long db_items(void) { return p_items(&db_cfg); }
static void db_run(long i) { p_run(&db_cfg, i); }
PART(c24_db, "C24", "c24-db", db_items, db_run,
  "every history of inserts, removes, reverts and reopenings up to a depth with four file sizes, the power failing before every modifying call and flush and in the end; what was not flushed is cut off or zero from around every record place (thorough: every byte) on",
  CNT, FL_ASAN | FL_SYNC, 0);

static const struct pcfg tx_cfg = {
  .depth = 4, .tdepth = 5, .fails = 1, .tfails = 1, .sizes = sizes, .txn = 1,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT)
};
static long tx_items(void) { return p_items(&tx_cfg); }
static void tx_run(long i) { p_run(&tx_cfg, i); }
PART(c24_tx, "C24", "c24-tx", tx_items, tx_run,
  "the same for the commits of a transaction, which may span several files",
  CNT, FL_ASAN | FL_SYNC, 0);


static const struct pcfg two_cfg = {
  .depth = 1, .tdepth = 2, .fails = 2, .tfails = 2, .sizes = few,
  .mask = A(OP_INS) | A(OP_REM)
};
static long two_items(void) { return p_items(&two_cfg); }
static void two_run(long i) { p_run(&two_cfg, i); }
PART(c24_two, "C24", "c24-two", two_items, two_run,
  "two power failures, the second during the recovery from the first, in a commit after it, or after that",
  CNT, FL_ASAN | FL_SYNC, 0);

/* A call fails in one commit, then others succeed, then the power fails: a
 * flush that failed must be made up for. */
static long fp_items(void) { return 10 * 2 * 2; }
static void
fp_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct obs e;
  struct real *r = &R[0];
  struct { oc c; int after; } bad[4];
  oc pend, got;
  volatile int nbad = 0, have_pend = 0, i, k, after, min;
  int tx = item / 20;
  if (!mc_thorough && item % 20 / 2 % 3 != 0)
    mc_prune();
  ou_small(&u, item & 1 ? 1 : 3, 5);
  env_limits_fast();
  urkel_verify_max_file_size = sizes[item % 20 / 2];
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  ncom = 0;
  note_commit(&m.disk);
  memset(&o, 0, sizeof(o));
  o.kind = OP_OPEN;
  step(r, &m, &o);
  o.kind = OP_INS;
  step(r, &m, &o);
  note_commit(&m.disk);
  if (tx) {
    o.kind = OP_TXNEW;
    o.hist = H_CUR;
    step(r, &m, &o);
    for (i = 1; i < 4; i++) {
      o.kind = OP_TXINS;
      o.key = i;
      o.val = i & 1;
      step(r, &m, &o);
    }
  }
  after = mc_thorough ? 3 : 2;
  fail_at[0] = 0;
  /* the first with a fault, the last with the power failing in it */
  for (i = 0; i <= after; i++) {
    struct model t = m;
    memset(&o, 0, sizeof(o));
    o.kind = tx && i < 2 ? OP_TXCOMMIT : OP_INS;
    if (o.kind == OP_INS) {
      o.key = 1 + i % 4;
      o.val = (i + 1) & 1;
    }
    model_step(&t, &o, &e);
    if (i == 0) {
      flt_fired = 0;
      flt_budget = 1;
      flt_begin();
      flt_arm(1, mc_thorough);
      real_step(r, &m, &o, &e);
      flt_arm(0, 0);
      if (!flt_fired)
        mc_prune();
      if (e.ret) {
        m = t;
        note_commit(&m.disk);
      } else {
        bad[nbad].c = t.disk;
        bad[nbad++].after = ncom - 1;
        mc_count(3, 1);
        observe(r, &m, OBS_DB);
      }
    } else {
      pend = t.disk;
      have_pend = 1;
      budget = i == after;
      env_hook = on_sys;
      env_crash = on_crash;
      strcpy(fail_at, "at the end");
      if (setjmp(jb) == 0) {
        armed = 1;
        step(r, &m, &o);
        armed = 0;
        note_commit(&m.disk);
        have_pend = 0;
      }
      armed = 0;
    }
    mc_trans(1);
  }
  env_hook = NULL;
  env_proc_exit(0);
  memset(R, 0, sizeof(R));
  mc_count(0, 1);
  min = power_off();
  if (mc_verbose) {
    mc_trace("  power fails %s", fail_at);
    fs_dump();
  }
  r->db = urkel_open(db_path);
  if (r->db == NULL)
    mc_fail("after a fault and a power failure %s the database does not open: error %d", fail_at, urkel_errno);
  memset(m.tx, 0, sizeof(m.tx));
  m.open = 1;
  shows(r, &m, &got);
  for (k = ncom - 1; k >= min; k--)
    if (memcmp(&com[k].c, &got, sizeof(oc)) == 0)
      break;
  if (k < min) {
    for (i = 0; i < nbad; i++)
      if (bad[i].after >= min && memcmp(&bad[i].c, &got, sizeof(oc)) == 0)
        break;
    if (i < nbad) {
      k = bad[i].after;
    } else if (have_pend && memcmp(&pend, &got, sizeof(oc)) == 0) {
      k = ncom - 1;
    } else {
      mc_fail("after a fault and a power failure %s the database shows none of the states it may: commits %d to %d are allowed", fail_at, min, ncom - 1);
    }
  }
  if (k < ncom - 1)
    mc_count(2, 1);
  model_init(&m, &u);
  m.open = m.there = 1;
  for (i = 1; i <= k; i++)
    model_hist_add(&m, &com[i].c);
  model_hist_add(&m, &got);
  m.disk = m.cur = got;
  /* (the same contents may have been committed twice: later roots may be known) */
  observe(r, &m, OBS_DB);
  for (i = 1; i <= m.nhist; i++) {
    memset(&o, 0, sizeof(o));
    o.kind = OP_ITER;
    o.hist = i;
    step(r, &m, &o);
  }
  mc_state(model_hash(&m) ^ env_fs_hash());
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 3; i++) {
    o.kind = OP_INS;
    o.key = 2 + i;
    o.val = i == 1;
    step(r, &m, &o);
  }
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB);
  for (i = 1; i <= m.nhist; i++) {
    memset(&o, 0, sizeof(o));
    o.kind = OP_ITER;
    o.hist = i;
    step(r, &m, &o);
  }
  o.kind = OP_CLOSE;
  step(r, &m, &o);
}
PART(c24_fault, "C24", "c24-fault", fp_items, fp_run,
  "a commit (direct or of a transaction) with every single failure of its system calls, flushes included, then more commits, the power failing before every modifying call and flush of the last and in the end; four (thorough ten) file sizes: a failed flush is made up for",
  CNTF, FL_ASAN | FL_SYNC, 0);
