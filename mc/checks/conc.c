/* conc.c - see conc.h */
#include "conc.h"

struct prog prog[MAXTHREADS];
struct crec crec[MAXTHREADS][CMAXOPS];
struct model conc_m;
struct universe conc_u;
int conc_faults;

static const struct op alphabet[] = {
  {OP_INS, 0, 0, 1, 0},
  {OP_INS, 0, 2, 0, 0},
  {OP_REM, 0, 0, 0, 0},
  {OP_GET, 0, 0, 0, H_CUR},
  {OP_GET, 0, 0, 0, 1},
  {OP_HAS, 0, 1, 0, 2},
  {OP_PROVE, 0, 1, 0, H_CUR},
  {OP_ITER, 0, 0, 0, H_CUR},
  {OP_ROOT, 0, 0, 0, 0},
  {OP_INJ, 0, 0, 0, 1},
  {OP_TXINS, 0, 1, 0, 0},
  {OP_TXREM, 0, 0, 0, 0},
  {OP_TXGET, 0, 2, 0, 0},
  {OP_TXROOT, 0, 0, 0, 0},
  {OP_TXCOMMIT, 0, 0, 0, 0},
  {OP_TXCLEAR, 0, 0, 0, 0},
  {OP_TXINJ, 0, 0, 0, 1},
  {OP_TXPROVE, 0, 0, 0, 0},
  {OP_TXITER, 0, 0, 0, 0},
  {OP_TXCOMMIT, 1, 0, 0, 0},
  {OP_TXINS, 1, 0, 1, 0},
  {OP_TXNEW, 2, 0, 0, H_CUR},
  {OP_TXHAS, 0, 1, 0, 0},
};

int
conc_alphabet(const struct op **ops) {
  *ops = alphabet;
  return ARRAY_SIZE(alphabet);
}

/* 0: two commits, cold; 1: the same in files of 120 bytes, at most one open;
 * 2: warm, everything in the caches. */
void
conc_setup(int id) {
  static int made;
  struct op o;
  struct real *r = &R[0];
  if (!made)
    ou_small(&conc_u, 0, 3);
  made = 1;
  env_limits_fast();
  if (id == 1) {
    urkel_verify_max_file_size = 120;
    urkel_verify_max_open_files = 1;
  }
  db_start(&conc_m, &conc_u);
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  step(r, &conc_m, &o);
  o.key = 1;
  o.val = 1;
  step(r, &conc_m, &o);
  if (id != 2) {
    o.kind = OP_REOPEN;
    step(r, &conc_m, &o);
  }
  o.kind = OP_TXNEW;
  o.hist = H_CUR;
  step(r, &conc_m, &o);
  o.tx = 1;
  step(r, &conc_m, &o);
  memset(crec, 0, sizeof(crec));
  if (id == 1)
    return;   /* no file but the last has been opened */
  /* changed, but not hashed */
  o.kind = OP_TXINS;
  o.tx = 0;
  o.key = 2;
  o.val = 0;
  step(r, &conc_m, &o);
  o.kind = OP_TXREM;
  o.tx = 1;
  o.key = 0;
  step(r, &conc_m, &o);
}

static void
body(int tid) {
  int i;
  char a[300], b[300];
  for (i = 0; i < prog[tid].n; i++) {
    struct crec *c = &crec[tid][i];
    sched_point("call");
    c->op = prog[tid].op[i];
    c->t0 = sched_clock();
    if (mc_verbose) {
      op_str(&conc_m, &c->op, a, sizeof(a));
      mc_trace("  thread %d: %s ...", tid, a);
    }
    real_step(&R[0], &conc_m, &c->op, &c->obs);
    c->t1 = sched_clock();
    if (mc_verbose) {
      obs_str(&c->obs, b, sizeof(b));
      mc_trace("  thread %d: %s -> %s", tid, a, b);
    }
  }
}

void
conc_run(int n, int preemptions, int sys, int fn, int wpref) {
  struct sched_cfg c;
  memset(&c, 0, sizeof(c));
  c.nthreads = n;
  c.preemptions = preemptions;
  c.yield_on_sys = sys;
  c.yield_on_fn = fn;
  c.writer_pref = wpref;
  env_yield = sys ? sched_point : NULL;
  sched_run(&c, body);
  env_yield = NULL;
}

struct fin { uint8_t cur[32], tx[OPTX][32], disk[32]; int live[OPTX], hasdisk; };

static int
lin(int n, int *pos, const struct model *m, const struct fin *f, struct model *out, int left) {
  int t, u, i;
  struct obs e;
  if (left == 0) {
    uint8_t root[32];
    ref_root(m->u, m->cur.c, root);
    if (memcmp(root, f->cur, 32) != 0)
      return 0;
    if (f->hasdisk) {
      ref_root(m->u, m->disk.c, root);
      if (memcmp(root, f->disk, 32) != 0)
        return 0;
    }
    for (i = 0; i < OPTX; i++) {
      if (!m->tx[i].live != !f->live[i])
        return 0;
      if (!m->tx[i].live)
        continue;
      ref_root(m->u, m->tx[i].c.c, root);
      if (memcmp(root, f->tx[i], 32) != 0)
        return 0;
    }
    *out = *m;
    return 1;
  }
  for (t = 0; t < n; t++) {
    const struct crec *c;
    struct model s;
    int ok = 1;
    if (pos[t] == prog[t].n)
      continue;
    c = &crec[t][pos[t]];
    for (u = 0; u < n && ok; u++)
      for (i = pos[u]; i < prog[u].n && ok; i++)
        if (u != t && crec[u][i].t1 < c->t0)
          ok = 0;
    if (!ok)
      continue;
    s = *m;
    model_step(&s, &c->op, &e);
    if (obs_eq(&e, &c->obs)) {
      pos[t]++;
      if (lin(n, pos, &s, f, out, left - 1))
        return 1;
      pos[t]--;
    }
    if (conc_faults > 0 && !c->obs.ret && c->obs.err >= URKEL_ECORRUPTION && c->obs.err != URKEL_EITEREND
        && c->obs.err != URKEL_ENOUPDATE) {
      /* failed because of a fault: without effect */
      s = *m;
      conc_faults--;
      pos[t]++;
      if (lin(n, pos, &s, f, out, left - 1))
        return 1;
      pos[t]--;
      conc_faults++;
    }
  }
  return 0;
}

static void
unexplained(int n, const char *what) {
  char msg[1500] = "", a[200], b[200];
  size_t k = 0;
  int t, i;
  for (t = 0; t < n; t++)
    for (i = 0; i < prog[t].n; i++) {
      op_str(&conc_m, &crec[t][i].op, a, sizeof(a));
      obs_str(&crec[t][i].obs, b, sizeof(b));
      if (k < sizeof(msg) - 1)
        k += snprintf(msg + k, sizeof(msg) - k, "%s[%d] %s -> %s", k ? "; " : "", t, a, b);
    }
  mc_fail("no order of the calls explains the results and what is %s: %s", what, msg);
}

void
conc_linearize(int n, struct model *out) {
  int pos[MAXTHREADS] = {0}, left = 0, t, i, faults = conc_faults;
  struct fin f;
  memset(&f, 0, sizeof(f));
  urkel_root(R[0].db, f.cur);
  for (i = 0; i < OPTX; i++)
    if (R[0].tx[i]) {
      urkel_tx_root(R[0].tx[i], f.tx[i]);
      f.live[i] = 1;
    }
  for (t = 0; t < n; t++)
    left += prog[t].n;
  if (!lin(n, pos, &conc_m, &f, out, left))
    unexplained(n, "left");
  observe(&R[0], out, OBS_DB | OBS_TX);
  /* and with what was committed */
  real_close(&R[0]);
  R[0].db = urkel_open(db_path);
  if (R[0].db == NULL)
    mc_fail("the database does not open any more: error %d", urkel_errno);
  urkel_root(R[0].db, f.disk);
  f.hasdisk = 1;
  conc_faults = faults;
  memset(pos, 0, sizeof(pos));
  if (!lin(n, pos, &conc_m, &f, out, left))
    unexplained(n, "stored");
  memset(out->tx, 0, sizeof(out->tx));
  out->cur = out->disk;
  observe(&R[0], out, OBS_DB);
}
