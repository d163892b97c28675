/* C09 - crashes */
#include <setjmp.h>
#include "seq.h"

static jmp_buf jb;
static int budget;             /* crashes still to come */
static int armed;
static int bytewise;           /* every byte of a write, or edges only */
static char crash_at[200];
static size_t torn_left;       /* bytes of the interrupted write not written */
static char torn_path[300];

static void
on_crash(void) {
  longjmp(jb, 1);
}

static void
on_sys(const struct sc *sc, struct act *a) {
  int c, n;
  if (!armed || budget == 0 || !sc->mutating)
    return;
  n = 2;
  if (sc->kind == SC_WRITE || sc->kind == SC_PWRITE)
    n += bytewise ? (int)sc->len : 4;
  c = mc_choose(n);
  if (c == 0)
    return;
  budget -= 1;
  mc_count(0, 1);
  torn_left = 0;
  if (c == 1) {
    a->crash = 1;
    snprintf(crash_at, sizeof(crash_at), "before %s(%s)", sc_names[sc->kind], sc->path);
    if (sc->kind == SC_WRITE) {
      torn_left = sc->len;
      snprintf(torn_path, sizeof(torn_path), "%s", sc->path);
    }
    return;
  }
  a->crash = 2;
  a->shortn = c - 1;
  if (!bytewise) {
    static const int num[4] = {1, 2, 3, 0};
    a->shortn = c == 5 ? sc->len - 1 : sc->len * num[c - 2] / 4;
  }
  torn_left = sc->len - a->shortn;
  snprintf(torn_path, sizeof(torn_path), "%s", sc->path);
  snprintf(crash_at, sizeof(crash_at), "in %s(%s) after %zd of %zu bytes", sc_names[sc->kind], sc->path, a->shortn, sc->len);
}

static void
arm_env(void) {
  env_hook = on_sys;
  env_crash = on_crash;
}

static void
kill_proc(struct real *r) {
  env_proc_exit(0);
  memset(r, 0, sizeof(*r));
}

/* What a database of either contents shows. */
static void
contents(struct real *r, const struct model *m, oc *c) {
  struct op o;
  struct obs e;
  memset(&o, 0, sizeof(o));
  o.kind = OP_ITER;
  o.hist = H_CUR;
  real_step(r, m, &o, &e);
  if (!e.ret)
    mc_fail("after a crash %s: iterating fails with error %d", crash_at, e.err);
  *c = e.c;
}

/* Opens after a crash.  pend: the commit in progress, or NULL. */
static void
recover(struct real *r, struct model *m, const oc *pend, int more) {
  oc c;
  struct op o;
  int tries;
  for (tries = 0;; tries++) {
    if (setjmp(jb) == 0) {
      armed = 1;
      r->db = urkel_open(db_path);
      armed = 0;
      break;
    }
    armed = 0;
    kill_proc(r);
    if (mc_verbose)
      mc_trace("  crash again %s", crash_at);
  }
  budget = 0;
  if (r->db == NULL)
    mc_fail("after a crash %s the database does not open: error %d", crash_at, urkel_errno);
  memset(m->tx, 0, sizeof(m->tx));
  m->open = 1;
  contents(r, m, &c);
  if (memcmp(&c, &m->disk, sizeof(c)) != 0) {
    if (pend == NULL || memcmp(&c, pend, sizeof(c)) != 0)
      mc_fail("after a crash %s the database shows neither the last commit nor the one in progress", crash_at);
    model_hist_add(m, &c);
    m->disk = c;
    mc_count(1, 1);
  }
  m->cur = m->disk;
  observe(r, m, OBS_DB | OBS_HIST);
  mc_state(model_hash(m) ^ env_fs_hash());
  if (!more)
    return;
  /* and it works on */
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  o.key = m->u->nk - 1;
  o.val = 1;
  step(r, m, &o);
  o.kind = OP_REOPEN;
  step(r, m, &o);
  observe(r, m, OBS_DB | OBS_HIST);
  observe_disk(m, urkel_verify_max_file_size < 100000 ? (long)urkel_verify_max_file_size : 0);
}

struct ccfg {
  int depth, tdepth;
  int crashes, tcrashes;
  int bytes;
  uint32_t mask;
  int nkeys;
  const int *sizes;       /* file sizes, 0-terminated; NULL: default */
  int garbage;
  int txn;                /* changes of one transaction, committed together */
};

#define CFAN 24

static long
c_items(const struct ccfg *c) {
  int n = 1;
  if (c->sizes)
    for (n = 0; c->sizes[n]; n++)
      ;
  return (long)n * 2 * CFAN;
}

static void
garbage(void) {
  static const uint8_t magic[18] = {0x6c, 0x6b, 0x72, 0x6d, 2, 0, 0, 0, 0, 0, 0};
  uint8_t buf[8192];
  long size;
  size_t i, n;
  int g = mc_choose(9);
  if (g == 0 || torn_left == 0)
    return;
  size = fs_read(torn_path, buf, sizeof(buf));
  if (size < 0)
    return;
  n = torn_left;
  if (g > 4)
    n = g == 5 ? 1 : g == 6 ? 38 : g == 7 ? 100 : 400;
  if (n > torn_left)
    n = torn_left;
  if (size + n > sizeof(buf))
    n = sizeof(buf) - size;
  for (i = 0; i < n; i++) {
    long at = size + i;
    switch (g) {
      case 1: buf[at] = 0; break;
      case 2: buf[at] = 0xff; break;
      case 3: buf[at] = magic[at % 38 < 18 ? at % 38 : 5]; break; /* magic at every record place */
      case 4: buf[at] = i ? buf[at - 1] * 5 + 1 : 7; break;
      default: buf[at] = g * 29 + i; break;
    }
  }
  fs_write(torn_path, buf, size + n);
  mc_count(2, 1);
}

static void
c_run(const struct ccfg *c, long item) {
  static struct universe u;
  static int made = -1;
  struct model m;
  struct op ops[64], o;
  oc pend;
  volatile int have_pend = 0;
  volatile int i;
  int n, pick, ui = item / CFAN % 2, si = item / CFAN / 2, first = item % CFAN;
  int depth = mc_thorough ? c->tdepth : c->depth;
  struct obs e;
  struct real *r = &R[0];

  if (made != ui) {
    ou_small(&u, ui ? 1 : 3, 4);
    made = ui;
  }
  env_limits_fast();
  if (c->sizes)
    urkel_verify_max_file_size = c->sizes[si];
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  budget = mc_thorough ? c->tcrashes : c->crashes;
  bytewise = c->bytes;
  torn_left = 0;
  strcpy(crash_at, "at the end");
  arm_env();
  memset(&pend, -1, sizeof(pend));
  if (setjmp(jb) == 0) {
    for (i = -1; i < depth; i++) {
      memset(&o, 0, sizeof(o));
      if (i < 0) {
        o.kind = OP_OPEN;
      } else {
        n = ops_enabled(&m, c->mask, c->txn ? 1 : 0, c->nkeys, 2, ops, 64);
        if (i == 0) {
          if (n >= CFAN)
            mc_internal("more first operations (%d) than items", n);
          if (first > n)
            mc_prune();
          pick = first - 1;
        } else {
          pick = mc_choose(n + 1) - 1;
        }
        if (pick < 0)
          break;
        o = ops[pick];
      }
      /* what the commit in progress would make of it */
      {
        struct model t = m;
        model_step(&t, &o, &e);
        have_pend = memcmp(&t.disk, &m.disk, sizeof(oc)) != 0;
        pend = t.disk;
      }
      armed = 1;
      step(r, &m, &o);
      armed = 0;
      mc_trans(1);
      have_pend = 0;
      if (i < 0 && c->txn) {
        o.kind = OP_TXNEW;
        o.hist = H_CUR;
        step(r, &m, &o);
      }
    }
  }
  armed = 0;
  if (mc_verbose)
    mc_trace("  crash %s", crash_at);
  kill_proc(r);
  if (c->garbage)
    garbage();
  recover(r, &m, have_pend ? &pend : NULL, 1);
}

static const struct ccfg seq_cfg = {
  .depth = 3, .tdepth = 4, .crashes = 1, .tcrashes = 1, .bytes = 1, .nkeys = 2,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN) | A(OP_INJ)
};
static long seq_i(void) { return c_items(&seq_cfg); }
static void seq_r(long i) { c_run(&seq_cfg, i); }
PART(c09_seq, "C09", "c09-seq", seq_i, seq_r,
  "every history of inserts, removes, reverts and reopenings up to a depth, killed before and after every modifying system call from creation on and within every write at every byte; then opened, compared, written to and reopened",
  {"crashes", "recovered to the commit in progress"}, FL_ASAN, 0);

/* In the WASI and Windows ports. */
static const int wasi_sizes[] = {120, 200, 100000, 0};
static const struct ccfg wasi_cfg = {.depth = 3, .tdepth = 4, .crashes = 1, .tcrashes = 1, .bytes = 0,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN) | A(OP_INJ), .nkeys = 2, .sizes = wasi_sizes};
static long wasi_i(void) { return c_items(&wasi_cfg); }
static void wasi_r(long i) { c_run(&wasi_cfg, i); }
PART(c26_crash, "C26", "c26-crash", wasi_i, wasi_r,
  "every history of three inserts, removes, reverts and reopenings (thorough: four), killed at every modifying system call from creation on and at edges of each write; then opened, compared, written to and reopened",
  {"crashes", "recovered to the commit in progress"}, FL_WASI, 0);
PART(c27_crash, "C27", "c27-crash", wasi_i, wasi_r,
  "every history of three inserts, removes, reverts and reopenings (thorough: four), killed at every modifying system call from creation on and at edges of each write; then opened, compared, written to and reopened",
  {"crashes", "recovered to the commit in progress"}, FL_WIN, 0);

static const struct ccfg txn_cfg = {
  .depth = 4, .tdepth = 5, .crashes = 1, .tcrashes = 1, .bytes = 1, .nkeys = 2, .txn = 1,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT)
};
static long txn_i(void) { return c_items(&txn_cfg); }
static void txn_r(long i) { c_run(&txn_cfg, i); }
PART(c09_txn, "C09", "c09-txn", txn_i, txn_r,
  "every history of changes and commits of one transaction up to a depth, killed at every modifying system call and byte of a write",
  {"crashes", "recovered to the commit in progress"}, FL_ASAN, 0);

static const int roll_sizes[] = {114, 117, 122, 133, 152, 171, 200, 228, 260, 300, 0};
static const struct ccfg roll_cfg = {
  .depth = 2, .tdepth = 3, .crashes = 1, .tcrashes = 1, .bytes = 1, .nkeys = 2, .sizes = roll_sizes,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN)
};
static long roll_i(void) { return c_items(&roll_cfg); }
static void roll_r(long i) { c_run(&roll_cfg, i); }
PART(c09_roll, "C09", "c09-roll", roll_i, roll_r,
  "the same with ten maximum file sizes from 114 to 300 bytes, so that single commits span several files",
  {"crashes", "recovered to the commit in progress"}, FL_ASAN, 0);

static const struct ccfg rolltx_cfg = {
  .depth = 4, .tdepth = 5, .crashes = 1, .tcrashes = 2, .bytes = 0, .nkeys = 2, .sizes = roll_sizes, .txn = 1,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT)
};
static long rolltx_i(void) { return c_items(&rolltx_cfg); }
static void rolltx_r(long i) { c_run(&rolltx_cfg, i); }
PART(c09_rolltx, "C09", "c09-rolltx", rolltx_i, rolltx_r,
  "transactions with ten maximum file sizes, killed at every modifying system call and at edges of each write",
  {"crashes", "recovered to the commit in progress"}, FL_ASAN, 0);

static const int twice_sizes[] = {115, 133, 171, 260, 100000, 0};
static const struct ccfg twice_cfg = {
  .depth = 2, .tdepth = 3, .crashes = 2, .tcrashes = 3, .bytes = 0, .nkeys = 2, .sizes = twice_sizes,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN)
};
static long twice_i(void) { return c_items(&twice_cfg); }
static void twice_r(long i) { c_run(&twice_cfg, i); }
PART(c09_twice, "C09", "c09-twice", twice_i, twice_r,
  "two crashes (thorough three), the later ones during the recovery from the first, at every modifying system call",
  {"crashes", "recovered to the commit in progress"}, FL_ASAN, 0);

static const int garb_sizes[] = {120, 200, 100000, 0};
static const struct ccfg garb_cfg = {
  .depth = 2, .tdepth = 3, .crashes = 1, .tcrashes = 1, .bytes = 1, .nkeys = 2, .sizes = garb_sizes, .garbage = 1,
  .mask = A(OP_INS) | A(OP_REM)
};
static long garb_i(void) { return c_items(&garb_cfg); }
static void garb_r(long i) { c_run(&garb_cfg, i); }
PART(c09_garbage, "C09", "c09-garbage", garb_i, garb_r,
  "a crash within a write at every byte, the rest of the write replaced by zeros, ones, record magics or other bytes of several lengths",
  {"crashes", "recovered to the commit in progress", "garbage tails"}, FL_ASAN, 0);

/* A closed database whose newest, unacknowledged data is cut at any length is
 * what c09-seq leaves; here acknowledged commits are cut too: the database must
 * show the newest commit that is still whole. */
static long cut_items(void) { return 8 * 4; }
static void
cut_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  oc at[8];
  long end[8], size;
  int n = 0, i, cut, ui = item % 4, nh = 3, kind = item / 4;
  uint8_t buf[4096];
  oc c;
  ou_small(&u, ui, 4);
  env_limits_fast();
  db_start(&m, &u);
  memset(at, -1, sizeof(at));
  end[n++] = 0;
  memset(&o, 0, sizeof(o));
  for (i = 0; i < nh; i++) {
    if (i == 2 && kind & 1) {
      o.kind = OP_REM;
      o.key = 0;
    } else {
      o.kind = OP_INS;
      o.key = i;
      o.val = (kind >> 1 ^ i) & 1;
    }
    step(&R[0], &m, &o);
    at[n] = m.disk;
    end[n++] = fs_size("/w/db/0000000001");
    if (kind & 4 && i == 0) {
      o.kind = OP_REOPEN;
      step(&R[0], &m, &o);
    }
  }
  o.kind = OP_CLOSE;
  step(&R[0], &m, &o);
  size = fs_read("/w/db/0000000001", buf, sizeof(buf));
  cut = mc_choose(size + 1);
  i = mc_choose(3);
  if (i == 1) { /* cut, then zeros */
    memset(buf + cut, 0, size - cut);
    fs_write("/w/db/0000000001", buf, size);
  } else if (i == 2) {
    memset(buf + cut, 0xa5, size - cut);
    fs_write("/w/db/0000000001", buf, size);
  } else {
    fs_truncate("/w/db/0000000001", cut);
  }
  for (n = nh; end[n] > cut; n--)
    ;
  R[0].db = urkel_open(db_path);
  snprintf(crash_at, sizeof(crash_at), "that kept %d of %ld bytes", cut, size);
  if (R[0].db == NULL)
    mc_fail("after a loss %s the database does not open: error %d", crash_at, urkel_errno);
  contents(&R[0], &m, &c);
  if (memcmp(&c, &at[n], sizeof(c)) != 0)
    mc_fail("after a loss %s the database does not show the newest whole commit", crash_at);
  model_init(&m, &u);
  m.open = 1;
  for (i = 1; i <= n; i++)
    model_hist_add(&m, &at[i]);
  m.disk = m.cur = at[n];
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  o.kind = OP_INS;
  o.key = 3;
  o.val = 1;
  step(&R[0], &m, &o);
  o.kind = OP_REOPEN;
  step(&R[0], &m, &o);
  observe(&R[0], &m, OBS_DB | OBS_HIST | OBS_ITER);
  observe_disk(&m, 0);
  mc_trans(nh + 2);
  mc_state(mc_hash(item, buf, size) ^ model_hash(&m) ^ cut);
  db_end(&m);
}
PART(c09_cut, "C09", "c09-cut", cut_items, cut_run,
  "the stored file cut short at every length, or overwritten from there on with zeros or other bytes: the newest commit that is whole is shown, older roots are readable, and commits go on",
  {NULL}, FL_ASAN, 0);
