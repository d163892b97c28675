/* C11 - many files */
#include "seq.h"

struct lcfg {
  int lo, hi, step, tstep;     /* the limit varied, from lo to hi */
  int which;                   /* 0 file size, 1 write buffer, 2 read buffer */
  int file, wbuf, open;        /* the others (0: default) */
  int nk, nv, ntx, setup, start_tx;
  int depth, tdepth;
  uint32_t mask;
  int unis, tunis;
  int rnk;
};

static long
l_items(const struct lcfg *c) {
  int st = mc_thorough ? c->tstep : c->step;
  return (long)((c->hi - c->lo) / st + 1) * (mc_thorough ? c->tunis : c->unis);
}

static void
bounds(const struct model *m, const char *when) {
  char names[64][256];
  int i, n = fs_list(db_path, names, 64);
  char path[300];
  (void)m;
  if (n >= 64)
    return;
  for (i = 0; i < n; i++) {
    if (strlen(names[i]) != 10)
      continue;
    snprintf(path, sizeof(path), "%s/%s", db_path, names[i]);
    if ((size_t)fs_size(path) > urkel_verify_max_file_size)
      mc_fail("%s %s holds %ld bytes, more than the maximum of %zu", when, names[i], fs_size(path), urkel_verify_max_file_size);
  }
}

static void
l_run(const struct lcfg *c, long item) {
  static struct universe u;
  static int made = -1, made_nk;
  struct model m;
  struct op ops[256], o;
  oc was;
  struct real *r = &R[0];
  int nu = mc_thorough ? c->tunis : c->unis;
  int ui = item % nu, i, n, pick, depth = mc_thorough ? c->tdepth : c->depth;
  int v = c->lo + item / nu * (mc_thorough ? c->tstep : c->step);
  if (made != ui || made_nk != c->nk) {
    ou_small(&u, ui, c->nk);
    made = ui;
    made_nk = c->nk;
  }
  env_limits_fast();
  if (c->file)
    urkel_verify_max_file_size = c->file;
  if (c->wbuf)
    urkel_verify_write_buffer = c->wbuf;
  if (c->open)
    urkel_verify_max_open_files = c->open;
  *(c->which == 0 ? &urkel_verify_max_file_size : c->which == 1 ? &urkel_verify_write_buffer : &urkel_verify_read_buffer) = v;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < c->setup; i++) {
    o.kind = OP_INS;
    o.key = i;
    o.val = i % c->nv;
    step(r, &m, &o);
  }
  o.key = o.val = 0;
  for (i = 0; i < c->start_tx; i++) {
    o.kind = OP_TXNEW;
    o.tx = i;
    o.hist = H_CUR;
    step(r, &m, &o);
  }
  o.tx = 0;
  for (i = 0; i < depth; i++) {
    n = ops_enabled(&m, c->mask, c->ntx, c->rnk ? c->rnk : c->nk, c->nv, ops, 256);
    pick = mc_choose(n + 1) - 1;
    if (pick < 0)
      break;
    was = m.disk;
    step(r, &m, &ops[pick]);
    mc_trans(1);
    if (memcmp(&was, &m.disk, sizeof(was)) != 0) {
      int k = env_open_data_files();
      if (k > (int)urkel_verify_max_open_files + 1)
        mc_fail("after a commit %d data files are open, with a limit of %zu", k, urkel_verify_max_open_files);
      mc_count(0, 1);
    }
  }
  bounds(&m, "afterwards");
  mc_state(model_hash(&m) ^ mc_hash(7, &v, sizeof(v)));
  observe(r, &m, OBS_DB | OBS_HIST | OBS_TX | OBS_ITER | OBS_PROOF);
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  observe_disk(&m, urkel_verify_max_file_size < 100000 ? (long)urkel_verify_max_file_size : 0);
  db_end(&m);
}

#define LIM(sym, nm, what, ...) \
  static const struct lcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return l_items(&sym##_c); } \
  static void sym##_r(long i) { l_run(&sym##_c, i); } \
  PART(sym, "C11", nm, sym##_i, sym##_r, what, {"commits"}, FL_ASAN, 0)

#define WR (A(OP_INS) | A(OP_REM) | A(OP_REOPEN))

LIM(c11_size, "c11-size",
  "every maximum file size from 114 to 560 bytes, every sequence of writes and reopenings up to a depth after two commits; contents, history, files (by an independent reader) and file sizes compared",
  .lo = 114, .hi = 560, .step = 1, .tstep = 1, .which = 0, .nk = 3, .nv = 2, .setup = 2, .depth = 2, .tdepth = 3, .mask = WR, .unis = 1, .tunis = 3);

LIM(c11_txsize, "c11-txsize",
  "every maximum file size from 114 to 260 bytes, transactions of several changes",
  .lo = 114, .hi = 260, .step = 1, .tstep = 1, .which = 0, .nk = 4, .nv = 2, .ntx = 1, .setup = 1, .start_tx = 1, .depth = 3, .tdepth = 4,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT), .unis = 1, .tunis = 2, .rnk = 3);

LIM(c11_wbuf, "c11-wbuf",
  "every write buffer from 1 to 500 bytes, transactions flushed in the middle of a commit, in one file",
  .lo = 1, .hi = 500, .step = 7, .tstep = 1, .which = 1, .nk = 4, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 3, .tdepth = 3,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT), .unis = 1, .tunis = 3, .rnk = 3);

LIM(c11_wbufroll, "c11-wbufroll",
  "every write buffer from 1 to 400 bytes with files of 150 bytes",
  .lo = 1, .hi = 400, .step = 7, .tstep = 1, .which = 1, .file = 150, .nk = 4, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 3, .tdepth = 3,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT), .unis = 2, .tunis = 3, .rnk = 3);

LIM(c11_rbuf, "c11-rbuf",
  "every read buffer of recovery from 38 to 420 bytes",
  .lo = 38, .hi = 420, .step = 1, .tstep = 1, .which = 2, .nk = 3, .nv = 2, .setup = 2, .depth = 2, .tdepth = 3, .mask = WR, .unis = 1, .tunis = 2);

LIM(c11_open, "c11-open",
  "every limit on open files from 1 to 6, many files of 120 bytes, sequences of writes, old reads and reverts",
  .lo = 114, .hi = 186, .step = 12, .tstep = 2, .which = 0, .open = 2, .nk = 4, .nv = 2, .setup = 4, .depth = 3, .tdepth = 4,
  .mask = WR | A(OP_INJ) | A(OP_ITER), .unis = 1, .tunis = 2, .rnk = 2);

/* Eviction picks files at random: every limit, several seeds, many files; all
 * roots are read and written on between the commits. */
static long
evict_items(void) {
  return 6 * (mc_thorough ? 60 : 2) * 3;
}
static void
evict_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct real *r = &R[0];
  int lim = 1 + item % 6, seed = item / 18, ui = item / 6 % 3, i, k;
  ou_small(&u, ui, 6);
  env_limits_fast();
  urkel_verify_max_file_size = 120;
  urkel_verify_max_open_files = lim;
  env_seed = seed * 7919;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 9; i++) {
    o.kind = i == 4 || i == 7 ? OP_REM : OP_INS;
    o.key = i == 4 ? 1 : i == 7 ? 0 : i % 6;
    o.val = i & 1;
    step(r, &m, &o);
    k = env_open_data_files();
    if (k > lim + 1)
      mc_fail("after a commit %d data files are open, with a limit of %d", k, lim);
    if (mc_choose(2))
      observe(r, &m, OBS_DB | OBS_HIST);
    bounds(&m, "after a commit");
    mc_trans(1);
  }
  env_seed = 0;
  observe(r, &m, OBS_DB | OBS_HIST | OBS_ITER);
  observe_disk(&m, 120);
  mc_state(mc_hash(lim, &seed, sizeof(seed)) ^ env_open_data_files());
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  db_end(&m);
}
PART(c11_evict, "C11", "c11-evict", evict_items, evict_run,
  "limits of one to six open files, with many files and every choice of when all old roots are read between nine commits, for several seeds of the random eviction",
  {NULL}, FL_ASAN, 0);

/* A held iterator or transaction survives the eviction of its files. */
static long hold_items(void) { return 3 * 3; }
static void
hold_run(long item) {
  static struct universe u;
  struct model m, at;
  struct op o;
  struct obs e;
  struct real *r = &R[0];
  uint8_t root[32];
  int i, w, when;
  ou_small(&u, item % 3, 6);
  env_limits_fast();
  urkel_verify_max_file_size = 120;
  urkel_verify_max_open_files = 1 + item / 3;
  env_seed = mc_choose(4) * 77;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  when = mc_choose(6);
  w = mc_choose(3);
  for (i = 0; i < 6; i++) {
    if (i == when) {
      o.kind = OP_TXNEW;
      o.tx = 0;
      o.hist = w && m.nhist ? 1 : H_CUR;
      step(r, &m, &o);
      if (w == 2 && when) {
        o.kind = OP_TXREM;
        o.key = 0;
        step(r, &m, &o);
      }
    }
    o.kind = OP_INS;
    o.key = i;
    o.val = i & 1;
    step(r, &m, &o);
    at = m;
    if (i >= when)
      observe(r, &at, OBS_TX);
    mc_trans(1);
  }
  observe(r, &m, OBS_DB | OBS_TX | OBS_PROOF | OBS_ITER);
  o.kind = OP_TXCOMMIT;
  o.tx = 0;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST | OBS_TX);
  mc_state(model_hash(&m) ^ item);
  (void)e;
  (void)root;
  db_end(&m);
}
PART(c11_hold, "C11", "c11-hold", hold_items, hold_run,
  "a transaction on a new or old state held while later commits evict its files, then read, proved, iterated and committed",
  {NULL}, FL_ASAN, 0);
