/* C10 - storage faults */
#include <setjmp.h>
#include "fault.h"

#define WR (A(OP_INS) | A(OP_REM))
#define RD (A(OP_GET) | A(OP_HAS) | A(OP_PROVE) | A(OP_ITER) | A(OP_INJ))
#define TXW (A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXCLEAR) | A(OP_TXROOT))
#define TXR (A(OP_TXNEW) | A(OP_TXGET) | A(OP_TXHAS) | A(OP_TXPROVE) | A(OP_TXITER) | A(OP_TXINJ) | A(OP_TXFREE))

#define FLT(sym, nm, what, ...) \
  static const struct fltcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return flt_items(&sym##_c); } \
  static void sym##_r(long i) { flt_run(&sym##_c, i); } \
  PART(sym, "C10", nm, sym##_i, sym##_r, what, {"faults", "failed calls"}, FL_ASAN, 0)

FLT(c10_seq, "c10-seq",
  "sequences of writes and reopenings, every single failure of every system call, also failures that last until the call returns",
  .unis = 1, .tunis = 2, .nk = 3, .nv = 2, .setup = 1, .depth = 2, .tdepth = 3, .faults = 1, .tfaults = 1, .sticky = 1,
  .mask = WR | A(OP_REOPEN) | A(OP_INJ));

FLT(c10_tx, "c10-tx",
  "sequences of operations of a transaction, every single failure of every system call",
  .unis = 1, .tunis = 3, .nk = 3, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 3, .tdepth = 4, .faults = 1, .tfaults = 1, .sticky = 1,
  .mask = TXW);

static const int sizes[] = {114, 133, 171, 228, 300, 0};
FLT(c10_read, "c10-read",
  "every sequence of reading database operations up to a depth on a reopened database of three keys spread over many files (five file sizes), every single failure of every system call in it: errors, interruptions, short and empty transfers",
  .unis = 2, .tunis = 2, .nk = 4, .nv = 2, .setup = 3, .depth = 1, .tdepth = 2, .faults = 1, .tfaults = 1, .sticky = 1,
  .sizes = sizes, .mask = RD);

FLT(c10_txread, "c10-txread",
  "sequences of operations of a transaction and reads on a reopened database of many files, every single failure of every system call",
  .unis = 1, .tunis = 3, .nk = 4, .nv = 2, .ntx = 1, .setup = 3, .start_tx = 1, .depth = 2, .tdepth = 2, .faults = 1, .tfaults = 2,
  .sizes = sizes, .mask = TXR | TXW);

FLT(c10_pread, "c10-pread",
  "sequences of operations on a database whose files cannot be mapped and are read by system calls: every single failure, short and empty read",
  .unis = 1, .tunis = 3, .nk = 3, .nv = 2, .setup = 2, .warm = 1, .depth = 2, .tdepth = 2, .faults = 1, .tfaults = 2, .nomap = 1,
  .mask = WR | RD);

FLT(c10_roll, "c10-roll",
  "the same on databases spread over many files (five file sizes), with two data files open at most",
  .unis = 2, .tunis = 2, .nk = 3, .nv = 2, .setup = 2, .depth = 1, .tdepth = 2, .faults = 1, .tfaults = 2, .sticky = 1,
  .sizes = sizes, .maxopen = 2, .mask = WR | A(OP_REOPEN) | A(OP_GET) | A(OP_PROVE) | A(OP_ITER));

FLT(c10_rolltx, "c10-rolltx",
  "transactions on databases spread over many files",
  .unis = 2, .tunis = 2, .nk = 3, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 2, .tdepth = 3, .faults = 1, .tfaults = 2,
  .sizes = sizes, .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT));

FLT(c10_wbuf, "c10-wbuf",
  "transactions with a write buffer of 200 bytes, flushed in the middle of a commit",
  .unis = 2, .tunis = 2, .nk = 3, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 2, .tdepth = 3, .faults = 2, .tfaults = 2, .sticky = 1,
  .wbuf = 200, .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT));

static const int fdsizes[] = {114, 171, 100000, 0};
FLT(c10_fds, "c10-fds",
  "every number of descriptors left over during each call, from none to four, on databases of one and of many files",
  .unis = 1, .tunis = 3, .nk = 3, .nv = 2, .ntx = 1, .setup = 3, .depth = 2, .tdepth = 3, .faults = 1, .tfaults = 2, .fds = 1,
  .sizes = fdsizes, .maxopen = 2, .mask = WR | A(OP_REOPEN) | A(OP_GET) | A(OP_ITER) | A(OP_PROVE) | A(OP_TXNEW) | A(OP_TXINS) | A(OP_TXCOMMIT));

/* Creating and opening. */
static long create_items(void) { return 4; }
static void
create_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct real *r = &R[0];
  int i;
  ou_small(&u, 0, 3);
  env_limits_fast();
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  memset(&o, 0, sizeof(o));
  if (item & 1) {
    o.kind = OP_OPEN;
    step(r, &m, &o);
    for (i = 0; i < 2; i++) {
      o.kind = OP_INS;
      o.key = i;
      step(r, &m, &o);
    }
    o.key = 0;
    o.kind = OP_CLOSE;
    step(r, &m, &o);
    if (item & 2) { /* something to recover from */
      uint8_t buf[8192];
      long n = fs_read("/w/db/0000000001", buf, sizeof(buf));
      memset(buf + n, 0x33, 90);
      fs_write("/w/db/0000000001", buf, n + 90);
    }
  } else if (item & 2) {
    fs_mkdir("/w/db");
  }
  flt_budget = mc_thorough ? 3 : 2;
  for (i = 0; i < 3; i++) {
    flt_fired = 0;
    flt_begin();
    flt_arm(1, 1);
    r->db = urkel_open(db_path);
    flt_arm(0, 0);
    mc_trans(1);
    if (r->db != NULL)
      break;
    if (!flt_fired)
      mc_fail("open fails without a fault, after earlier ones: error %d", urkel_errno);
    if (urkel_errno == 0)
      mc_fail("a failing open reports no error");
    mc_count(1, 1);
    if (!flt_munmap)
      check_clean("after a failed open");
  }
  if (r->db == NULL)
    r->db = urkel_open(db_path);
  if (r->db == NULL)
    mc_fail("open fails although the faults are gone: error %d", urkel_errno);
  m.open = 1;
  observe(r, &m, OBS_DB | OBS_HIST);
  o.kind = OP_INS;
  o.key = 2;
  o.val = 1;
  step(r, &m, &o);
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  observe_disk(&m, 0);
  mc_state(env_fs_hash() + item);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
}
PART(c10_create, "C10", "c10-create", create_items, create_run,
  "creating a database, opening an existing one and recovering one, with every pair (thorough: triple) of failures over repeated attempts",
  {"faults", "failed calls"}, FL_ASAN, 0);
PART(c27_c10_create, "C27", "c27-create", create_items, create_run,
  "in the Windows port: " "creating a database, opening an existing one and recovering one, with every pair (thorough: triple) of failures over repeated attempts", {"faults", "failed calls"}, FL_WIN, 0);

/* Recovering from a crash while calls fail. */
static jmp_buf rec_jb;
static int rec_armed;
static char rec_at[200];
static void rec_crash(void) { longjmp(rec_jb, 1); }
static void
rec_hook(const struct sc *sc, struct act *a) {
  int w = sc->kind == SC_WRITE || sc->kind == SC_PWRITE, c;
  if (!rec_armed || !sc->mutating)
    return;
  c = mc_choose(w ? 5 : 2);
  if (c == 0)
    return;
  rec_armed = 0;
  if (c == 1) {
    a->crash = 1;
  } else {
    a->crash = 2;
    a->shortn = c == 2 ? 1 : c == 3 ? sc->len / 2 : sc->len;
  }
  snprintf(rec_at, sizeof(rec_at), "at %s(%s)", sc_names[sc->kind], sc->path);
}
static const int rec_sizes[] = {114, 122, 152, 200, 260, 100000, 0};
static long rec_items(void) { return 6 * 2; }
static void
rec_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct obs e;
  struct real *r = &R[0];
  oc pend, got;
  int i;
  ou_small(&u, item & 1 ? 1 : 3, 4);
  env_limits_fast();
  urkel_verify_max_file_size = rec_sizes[item / 2];
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  memset(&o, 0, sizeof(o));
  o.kind = OP_OPEN;
  step(r, &m, &o);
  o.kind = OP_INS;
  step(r, &m, &o);
  o.kind = OP_TXNEW;
  o.hist = H_CUR;
  step(r, &m, &o);
  o.kind = OP_TXINS;
  o.key = 1;
  step(r, &m, &o);
  o.key = 2;
  o.val = 1;
  step(r, &m, &o);
  o.kind = OP_TXCOMMIT;
  {
    struct model t = m;
    model_step(&t, &o, &e);
    pend = t.disk;
  }
  strcpy(rec_at, "not");
  env_hook = rec_hook;
  env_crash = rec_crash;
  rec_armed = 1;
  if (setjmp(rec_jb) == 0)
    step(r, &m, &o);
  if (rec_armed) /* no crash */
    mc_prune();
  env_proc_exit(0);
  memset(r, 0, sizeof(*r));
  memset(m.tx, 0, sizeof(m.tx));
  flt_budget = mc_thorough ? 2 : 1;
  for (i = 0; i < 2; i++) {
    flt_fired = 0;
    flt_begin();
    flt_arm(1, 1);
    r->db = urkel_open(db_path);
    flt_arm(0, 0);
    mc_trans(1);
    if (r->db != NULL)
      break;
    if (!flt_fired)
      mc_fail("crashed %s, open fails without a fault: error %d", rec_at, urkel_errno);
    mc_count(1, 1);
  }
  if (r->db == NULL)
    r->db = urkel_open(db_path);
  if (r->db == NULL)
    mc_fail("crashed %s, open fails although the faults are gone: error %d", rec_at, urkel_errno);
  m.open = 1;
  memset(&o, 0, sizeof(o));
  o.kind = OP_ITER;
  o.hist = H_CUR;
  real_step(r, &m, &o, &e);
  got = e.c;
  if (!e.ret)
    mc_fail("crashed %s, iterating fails: error %d", rec_at, e.err);
  if (memcmp(&got, &m.disk, sizeof(got)) != 0) {
    if (memcmp(&got, &pend, sizeof(got)) != 0)
      mc_fail("crashed %s, the database shows neither the last commit nor the one in progress", rec_at);
    model_hist_add(&m, &got);
    m.disk = got;
  }
  m.cur = m.disk;
  observe(r, &m, OBS_DB | OBS_HIST);
  /* works on, over several files */
  for (i = 0; i < 4; i++) {
    memset(&o, 0, sizeof(o));
    o.kind = i == 2 ? OP_REM : OP_INS;
    o.key = i == 2 ? 0 : i == 3 ? 1 : 3 - i;
    o.val = i == 3 ? 0 : 1;
      step(r, &m, &o);
  }
  observe(r, &m, OBS_DB | OBS_HIST);
  memset(&o, 0, sizeof(o));
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  observe_disk(&m, urkel_verify_max_file_size < 100000 ? (long)urkel_verify_max_file_size : 0);
  mc_state(env_fs_hash() + item);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
}
PART(c10_recover, "C10", "c10-recover", rec_items, rec_run,
  "a transaction's commit killed at every modifying system call and within its writes (six file sizes), then opened with every failure (thorough: pair) of a system call over repeated attempts, written to over several files and reopened",
  {"faults", "failed calls"}, FL_ASAN, 0);
PART(c27_c10_recover, "C27", "c27-recover", rec_items, rec_run,
  "in the Windows port: " "a transaction's commit killed at every modifying system call and within its writes (six file sizes), then opened with every failure (thorough: pair) of a system call over repeated attempts, written to over several files and reopened", {"faults", "failed calls"}, FL_WIN, 0);

/* A commit that failed, then one that the process dies in. */
static long ff_items(void) { return 6 * 2 * 2; }
static void
ff_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct obs e;
  struct real *r = &R[0];
  oc may[3], got;
  int i, n = 0, tx = item / 12, failed = 0;
  ou_small(&u, item & 1 ? 1 : 3, 5);
  env_limits_fast();
  urkel_verify_max_file_size = rec_sizes[item % 12 / 2];
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  memset(&o, 0, sizeof(o));
  o.kind = OP_OPEN;
  step(r, &m, &o);
  o.kind = OP_INS;
  step(r, &m, &o);
  if (tx) {
    o.kind = OP_TXNEW;
    o.hist = H_CUR;
    step(r, &m, &o);
    o.kind = OP_TXINS;
    o.key = 1;
    step(r, &m, &o);
    o.key = 2;
    o.val = 1;
    step(r, &m, &o);
  }
  flt_budget = mc_thorough ? 2 : 1;
  for (i = 0; i < (mc_thorough ? 2 : 1); i++) {
    struct model t = m;
    o.kind = tx ? OP_TXCOMMIT : OP_INS;
    o.key = tx ? 0 : 1 + i;
    o.val = 0;
    model_step(&t, &o, &e);
    flt_fired = 0;
    flt_begin();
    flt_arm(1, 1);
    real_step(r, &m, &o, &e);
    flt_arm(0, 0);
    mc_trans(1);
    if (e.ret) {
      m = t;
    } else {
      if (!flt_fired)
        mc_fail("a commit fails without a fault: error %d", e.err);
      may[n++] = t.disk;
      failed = 1;
      mc_count(1, 1);
    }
  }
  if (!failed)
    mc_prune();
  observe(r, &m, OBS_DB);
  /* the one that is interrupted: again, or another */
  memset(&o, 0, sizeof(o));
  o.kind = tx && mc_choose(2) ? OP_TXCOMMIT : OP_INS;
  if (o.kind == OP_INS) {
    o.key = 3;
    o.val = 1;
  }
  {
    struct model t = m;
    model_step(&t, &o, &e);
    may[n++] = t.disk;
  }
  strcpy(rec_at, "not");
  env_hook = rec_hook;
  env_crash = rec_crash;
  rec_armed = 1;
  if (setjmp(rec_jb) == 0)
    step(r, &m, &o);
  if (rec_armed)
    mc_prune();
  env_proc_exit(0);
  memset(r, 0, sizeof(*r));
  memset(m.tx, 0, sizeof(m.tx));
  r->db = urkel_open(db_path);
  if (r->db == NULL)
    mc_fail("crashed %s after a failed commit, open fails: error %d", rec_at, urkel_errno);
  m.open = 1;
  memset(&o, 0, sizeof(o));
  o.kind = OP_ITER;
  o.hist = H_CUR;
  real_step(r, &m, &o, &e);
  got = e.c;
  if (!e.ret)
    mc_fail("crashed %s after a failed commit, iterating fails: error %d", rec_at, e.err);
  if (memcmp(&got, &m.disk, sizeof(got)) != 0) {
    for (i = 0; i < n && memcmp(&got, &may[i], sizeof(got)) != 0; i++)
      ;
    if (i == n)
      mc_fail("crashed %s after a failed commit, the database shows neither the last commit nor the failed one nor the one in progress", rec_at);
    /* the failed one is then in the history too, perhaps */
    model_hist_add(&m, &got);
    m.disk = got;
  }
  m.cur = m.disk;
  observe(r, &m, OBS_DB | OBS_HIST);
  for (i = 0; i < 4; i++) {
    memset(&o, 0, sizeof(o));
    o.kind = i == 2 ? OP_REM : OP_INS;
    o.key = i == 2 ? 0 : i == 3 ? 1 : 4 - i;
    o.val = i == 3 ? 0 : 1;
    step(r, &m, &o);
  }
  observe(r, &m, OBS_DB | OBS_HIST);
  memset(&o, 0, sizeof(o));
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  mc_state(env_fs_hash() + item);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
}
PART(c09_fault, "C09", "c09-fault", ff_items, ff_run,
  "a commit (direct or of a transaction) with every failure (thorough: pair, over two commits) of its system calls, then the same or another one killed at every modifying system call and within its writes (six file sizes): the last completed commit, the one in progress or the failed one is found, everything before it is readable, writing goes on over several files and lasts",
  {"faults", "failed commits"}, FL_ASAN, 0);

/* Destroying: fails or succeeds, never half when it says success. */
static long destroy_items(void) { return 2; }
static void
destroy_run(long item) {
  static struct universe u;
  static const int ksize[2] = {100000, 120};
  struct model m;
  struct op o;
  struct real *r = &R[0];
  int i, ok = 0;
  ou_small(&u, 0, 3);
  env_limits_fast();
  urkel_verify_max_file_size = ksize[item];
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 2; i++) {
    o.kind = OP_INS;
    o.key = i;
    step(r, &m, &o);
  }
  o.key = 0;
  o.kind = OP_CLOSE;
  step(r, &m, &o);
  flt_budget = mc_thorough ? 3 : 2;
  for (i = 0; i < 4 && !ok; i++) {
    flt_fired = 0;
    flt_begin();
    flt_arm(i < 3, 1);
    ok = urkel_destroy(db_path);
    flt_arm(0, 0);
    mc_trans(1);
    if (ok && fs_exists(db_path))
      mc_fail("destroy reports success but the directory is there");
    if (!ok && !flt_fired && fs_exists(db_path))
      mc_fail("destroying again fails: error %d", urkel_errno);
    if (!fs_exists(db_path))
      break;
    mc_count(1, 1);
  }
  if (fs_exists(db_path))
    mc_fail("the database cannot be destroyed any more");
  model_init(&m, &u);
  o.kind = OP_OPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB);
  o.kind = OP_INS;
  step(r, &m, &o);
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB);
  mc_state(env_fs_hash() + item);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
}
PART(c10_destroy, "C10", "c10-destroy", destroy_items, destroy_run,
  "destroying a database of one and of several files, with every pair (thorough: triple) of failures over repeated attempts; success means it is gone, and the path is usable again",
  {"faults", "failed calls"}, FL_ASAN, 0);
PART(c27_c10_destroy, "C27", "c27-destroy", destroy_items, destroy_run,
  "in the Windows port: " "destroying a database of one and of several files, with every pair (thorough: triple) of failures over repeated attempts; success means it is gone, and the path is usable again", {"faults", "failed calls"}, FL_WIN, 0);

/* An iterator that has failed once is used on. */
static long iter_items(void) { return 5 * 2; }
static void
iter_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct real *r = &R[0];
  uint8_t key[32], last[32], val[1024];
  size_t len;
  int i, k, n = 0, errs = 0, calls;
  urkel_iter_t *it;
  urkel_tx_t *tx = NULL;
  ou_small(&u, item / 2, 6);
  env_limits_fast();
  urkel_verify_max_file_size = 130;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 5; i++) {
    o.kind = OP_INS;
    o.key = i;
    o.val = i & 1;
    step(r, &m, &o);
  }
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  flt_budget = 2;
  flt_fired = 0;
  flt_begin();
  if (item & 1) {
    tx = urkel_tx_create(r->db, NULL);
    if (!urkel_tx_remove(tx, u.key[4]))
      mc_fail("remove fails");
    m.cur.c[4] = -1;
    it = urkel_iter_create(tx);
  } else {
    it = urkel_iterate(r->db, NULL);
  }
  if (it == NULL)
    mc_fail("iterate fails");
  for (calls = 0; calls < 40; calls++) {
    int ok, with = !(calls & 8);
    flt_fired = 0;
    flt_arm(1, 0);
    ok = urkel_iter_next(it, key, with ? val : NULL, with ? &len : NULL);
    flt_arm(0, 0);
    mc_trans(1);
    if (!ok) {
      if (urkel_errno == URKEL_EITEREND)
        break;
      if (!flt_fired)
        mc_fail("iteration fails without a fault: error %d", urkel_errno);
      errs++;
      continue;
    }
    if (n++ && memcmp(key, last, 32) <= 0)
      mc_fail("iteration is out of order after a failure");
    memcpy(last, key, 32);
    for (k = 0; k < u.nk; k++)
      if (memcmp(u.key[k], key, 32) == 0)
        break;
    if (k == u.nk || m.cur.c[k] < 0)
      mc_fail("iteration returns a key that is not there");
    if (with && (len != u.len[m.cur.c[k]] || memcmp(val, u.val[m.cur.c[k]], len) != 0))
      mc_fail("iteration returns a wrong value");
  }
  if (calls == 40)
    mc_fail("iteration does not end");
  if (!errs && n != 5 - (int)(item & 1))
    mc_fail("iteration returned %d records", n);
  urkel_iter_destroy(it);
  if (tx)
    urkel_tx_destroy(tx);
  m.cur = m.disk;
  observe(r, &m, OBS_DB);
  mc_state(mc_hash(item, &errs, sizeof(errs)) + n);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
  check_clean("after a failed iteration");
}
PART(c10_iter, "C10", "c10-iter", iter_items, iter_run,
  "iterations over a reopened database and over a transaction, used on after every one and two failures of reads",
  {"faults"}, FL_ASAN, 0);
