/* C17 - leaks */
#include "conc.h"
#include "fault.h"
#include "../view.h"

#define ALLDB (A(OP_INS) | A(OP_REM) | A(OP_GET) | A(OP_HAS) | A(OP_PROVE) | A(OP_ITER) | A(OP_INJ) | A(OP_REOPEN))
#define ALLTX (A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXGET) | A(OP_TXHAS) | A(OP_TXPROVE) | A(OP_TXROOT) | \
               A(OP_TXITER) | A(OP_TXCLEAR) | A(OP_TXINJ) | A(OP_TXCOMMIT))

static void
lim_small(void) {
  env_limits_fast();
  urkel_verify_max_file_size = 2300;
  urkel_verify_write_buffer = 300;
  urkel_verify_max_open_files = 2;
}

#define SEQ(sym, nm, what_, ...) \
  static const struct seqcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return seq_items(&sym##_c); } \
  static void sym##_r(long i) { seq_run(&sym##_c, i); } \
  PART(sym, "C17", nm, sym##_i, sym##_r, what_, {NULL}, FL_ASAN, 0)

SEQ(c17_tx, "c17-tx", "every sequence of all operations on two transactions (with unknown roots and missing keys), then closing: nothing is left",
  .unis = 1, .tunis = 4, .nk = 2, .nv = 2, .ntx = 2, .depth = 3, .tdepth = 4, .mask = ALLTX, .what = OBS_ROOTS, .start_tx = 1, .setup = 1, .clean = 1);
SEQ(c17_db, "c17-db", "every sequence of all operations of the database, then closing: nothing is left",
  .unis = 1, .tunis = 4, .nk = 2, .nv = 2, .depth = 3, .tdepth = 4, .mask = ALLDB, .what = OBS_ROOTS, .setup = 2, .clean = 1);
SEQ(c17_mix, "c17-mix", "every sequence of writes, commits, clears and releases of a transaction and the database with small files and buffers, then closing",
  .unis = 1, .tunis = 3, .nk = 3, .nv = 2, .ntx = 1, .depth = 4, .tdepth = 5, .mask = A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXCLEAR) | A(OP_INS) | A(OP_REM),
  .what = OBS_ROOTS, .start_tx = 1, .setup = 2, .clean = 1, .limits = lim_small);

#define FLT(sym, nm, what, ...) \
  static const struct fltcfg sym##_c = {__VA_ARGS__, .leaks = 1}; \
  static long sym##_i(void) { return flt_items(&sym##_c); } \
  static void sym##_r(long i) { flt_run(&sym##_c, i); } \
  PART(sym, "C17", nm, sym##_i, sym##_r, what, {"faults", "failed calls"}, FL_ASAN, 0)

static const int sizes[] = {114, 171, 300, 0};
FLT(c17_fdb, "c17-fault-db", "every pair of database operations on many files with every single failing system call, then closing",
  .unis = 1, .tunis = 2, .nk = 3, .nv = 2, .setup = 2, .depth = 2, .tdepth = 2, .faults = 1, .tfaults = 2, .sticky = 0,
  .sizes = sizes, .maxopen = 2, .mask = ALLDB);
FLT(c17_ftx, "c17-fault-tx", "every pair of operations of a transaction on many files with every single failing system call, then closing",
  .unis = 1, .tunis = 2, .nk = 3, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 2, .tdepth = 2, .faults = 1, .tfaults = 2,
  .sizes = sizes, .mask = ALLTX);
FLT(c17_fone, "c17-fault-one", "sequences of writes and commits on a single file with every single failing system call, then closing",
  .unis = 1, .tunis = 2, .nk = 3, .nv = 2, .ntx = 1, .setup = 1, .start_tx = 1, .depth = 2, .tdepth = 3, .faults = 1, .tfaults = 1, .sticky = 1,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXFREE) | A(OP_INS) | A(OP_REM) | A(OP_REOPEN));
FLT(c17_fmap, "c17-fault-nomap", "operations with files that cannot be mapped, with every single failing system call, then closing",
  .unis = 1, .tunis = 2, .nk = 3, .nv = 2, .setup = 2, .warm = 1, .depth = 2, .tdepth = 2, .faults = 1, .tfaults = 2, .nomap = 1,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_GET) | A(OP_PROVE) | A(OP_ITER) | A(OP_INJ));

/* ------------------------------------------------------------------ */
/* Calls that keep nothing: balance at once                             */
/* ------------------------------------------------------------------ */

static struct universe u;
static struct model m;
static int8_t cont[MAXK];

static int
same(const struct envstat *a, const struct envstat *b) {
  return a->allocs == b->allocs && a->bytes == b->bytes && a->fds == b->fds && a->maps == b->maps && a->locks == b->locks && a->dirs == b->dirs;
}

static void
balance(const struct envstat *a, const char *what) {
  struct envstat b;
  env_stat(&b);
  if (!same(a, &b))
    mc_fail("%s keeps resources: %ld allocations (%ld bytes), %ld descriptors, %ld mappings, %ld locks, %ld directory streams",
            what, b.allocs - a->allocs, (long)b.bytes - (long)a->bytes, b.fds - a->fds, b.maps - a->maps, b.locks - a->locks, b.dirs - a->dirs);
}

/* Proofs, good and bad. */
static long ver_items(void) { return 32; }
static void
ver_run(long item) {
  struct rec recs[MAXK];
  uint8_t raw[8192], root[32], val[1023], cut[8192];
  size_t vlen, len;
  int exists, i, n, k = item % 8, mask = 0;
  struct envstat before;
  ou_make(&u, item / 8 % ou_count(), 6, 2);
  memset(cont, -1, sizeof(cont));
  for (i = 0; i < 6; i++)
    if (mc_choose(2)) {
      cont[i] = i & 1;
      mask |= 1 << i;
    }
  env_reset();
  n = ref_recs(&u, cont, recs);
  ref_root(&u, cont, root);
  if (k >= 6) {
    uint8_t key[32];
    memset(key, k == 6 ? 0 : 0xff, 32);
    len = ref_prove(recs, n, key, raw);
  } else {
    len = ref_prove(recs, n, u.key[k], raw);
  }
  env_stat(&before);
  for (i = 0; i <= (int)len * 10; i++) {
    size_t l = len;
    memcpy(cut, raw, len);
    if (i < (int)len)
      l = i; /* shortened */
    else if (i < (int)len * 9)
      cut[i / 8 - len / 8 < len ? i / 8 - len / 8 : 0] ^= 1 << (i & 7);
    else if (i < (int)len * 10)
      cut[i - len * 9] = 0xff;
    urkel_verify(&exists, val, &vlen, cut, l, u.key[k < 6 ? k : 0], root);
    mc_trans(1);
    balance(&before, "verify");
  }
  mc_state(mc_hash(item, &mask, sizeof(mask)));
}
PART(c17_verify, "C17", "c17-verify", ver_items, ver_run,
  "verifying every genuine proof of trees of up to six keys, its every shortening, bit flip and byte set to 255: nothing is kept",
  {NULL}, FL_ASAN, 0);

/* Read-only and failing calls, over and over: nothing accumulates. */
struct rep { struct op op[3]; int n; };
static long steady_items(void) { return 2 * SEQ_FAN; }
static void
steady_run(long item) {
  struct op ops[512], o, seq[3];
  struct model m0;
  struct envstat st[8];
  char s[200];
  int cfg = item / SEQ_FAN, first = item % SEQ_FAN, i, k, n, depth = 2, reps = 6;
  ou_small(&u, 0, 3);
  env_limits_fast();
  if (cfg == 1) {
    urkel_verify_max_file_size = 130;
    urkel_verify_max_open_files = 3;
  }
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 3; i++) {
    o.kind = OP_INS;
    o.key = i;
    step(&R[0], &m, &o);
  }
  o.key = 0;
  o.kind = OP_TXNEW;
  o.hist = H_CUR;
  step(&R[0], &m, &o);
  n = ops_enabled(&m, A(OP_GET) | A(OP_HAS) | A(OP_PROVE) | A(OP_ITER) | A(OP_ROOT) | A(OP_INJ) | A(OP_TXGET) | A(OP_TXHAS) | A(OP_TXPROVE) |
                  A(OP_TXROOT) | A(OP_TXITER) | A(OP_TXCLEAR) | A(OP_TXINJ) | A(OP_TXINS) | A(OP_TXREM), 1, 3, 2, ops, 512);
  if (n > SEQ_FAN)
    mc_internal("fan %d", n);
  if (first >= n)
    mc_prune();
  seq[0] = ops[first];
  for (i = 1; i < depth; i++)
    seq[i] = ops[mc_choose(n)];
  m0 = m;
  for (k = 0; k < reps; k++) {
    for (i = 0; i < depth; i++) {
      step(&R[0], &m, &seq[i]);
      mc_trans(1);
    }
    /* back to where we were */
    memset(&o, 0, sizeof(o));
    o.kind = OP_INJ;
    for (o.hist = 0; o.hist <= m0.nhist; o.hist++) {
      oc c;
      if (o.hist == 0)
        memset(&c, -1, sizeof(c));
      else
        c = m0.hist[o.hist - 1];
      if (memcmp(&c, &m0.cur, sizeof(c)) == 0)
        break;
    }
    step(&R[0], &m, &o);
    o.kind = OP_TXCLEAR;
    o.hist = 0;
    step(&R[0], &m, &o);
    env_stat(&st[k]);
  }
  for (k = 2; k < reps; k++)
    if (!same(&st[k], &st[reps - 1])) {
      op_str(&m, &seq[0], s, sizeof(s));
      balance(&st[1], s);
    }
  mc_state(mc_hash(item, seq, sizeof(seq[0]) * depth));
  memset(&o, 0, sizeof(o));
  o.kind = OP_TXFREE;
  step(&R[0], &m, &o);
  db_end(&m);
}
PART(c17_steady, "C17", "c17-steady", steady_items, steady_run,
  "every pair of reading, transaction and failing calls repeated six times on one and on many files: after the second round nothing more is held",
  {NULL}, FL_ASAN, 0);
PART(c27_c17_steady, "C27", "c27-steady", steady_items, steady_run,
  "in the Windows port: " "every pair of reading, transaction and failing calls repeated six times on one and on many files: after the second round nothing more is held", {NULL}, FL_WIN, 0);

/* Transactions and commits, over and over, against a growing database. */
static long cycle_items(void) { return 2 * 64; }
static void
cycle_run(long item) {
  struct op ops[64], o, seq[3];
  struct envstat st[12];
  int cfg = item / 64, first = item % 64, i, k, n, depth = 3, nn = 0;
  ou_small(&u, 0, 2);
  env_limits_fast();
  if (cfg == 1) {
    urkel_verify_max_file_size = 130;
    urkel_verify_max_open_files = 3;
  }
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  step(&R[0], &m, &o);
  for (i = 0; i < 2; i++)
    for (k = 0; k < 2; k++) {
      ops[nn++] = (struct op){OP_TXINS, 0, i, k, 0};
      if (k == 0)
        ops[nn++] = (struct op){OP_TXREM, 0, i, 0, 0};
    }
  ops[nn++] = (struct op){OP_TXCOMMIT, 0, 0, 0, 0};
  ops[nn++] = (struct op){OP_TXROOT, 0, 0, 0, 0};
  n = nn;
  if (first >= n)
    mc_prune();
  seq[0] = ops[first];
  for (i = 1; i < depth; i++)
    seq[i] = ops[mc_choose(n)];
  for (k = 0; k < 12; k++) {
    memset(&o, 0, sizeof(o));
    o.kind = OP_TXNEW;
    o.hist = H_CUR;
    step(&R[0], &m, &o);
    for (i = 0; i < depth; i++) {
      step(&R[0], &m, &seq[i]);
      mc_trans(1);
    }
    o.kind = OP_TXFREE;
    step(&R[0], &m, &o);
    env_stat(&st[k]);
    m.nhist = m.nhist; /* contents repeat: no more roots */
  }
  /* Files grow; memory and descriptors must not. */
  for (k = 8; k < 12; k++)
    if (st[k].fds > st[7].fds + (cfg == 1) * 2 || st[k].locks != st[7].locks || st[k].dirs != st[7].dirs || (cfg == 0 && st[k].allocs > st[7].allocs))
      mc_fail("transactions, created, used and destroyed over and over, keep resources: round %d %ld allocations, %ld descriptors, %ld locks; round 8 %ld, %ld, %ld",
              k + 1, st[k].allocs, st[k].fds, st[k].locks, st[7].allocs, st[7].fds, st[7].locks);
  mc_state(mc_hash(item, seq, sizeof(seq)));
  db_end(&m);
}
PART(c17_cycle, "C17", "c17-cycle", cycle_items, cycle_run,
  "every three operations of a transaction, each round with a new one, twelve rounds: descriptors and memory stop growing",
  {NULL}, FL_ASAN, 0);

/* Iterators dropped anywhere, with failing calls. */
static long iter_items(void) { return 3 * 2 * 2; }
static void
iter_run(long item) {
  struct op o;
  urkel_iter_t *it;
  uint8_t key[32], val[1023], root[32];
  size_t n;
  int i, kind = item % 3, files = item / 3 % 2, warm = item / 6, stop = mc_choose(6), miss;
  ou_small(&u, 0, 4);
  env_limits_fast();
  if (files)
    urkel_verify_max_file_size = 130;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 3; i++) {
    o.kind = OP_INS;
    o.key = i;
    step(&R[0], &m, &o);
  }
  ref_root(&u, m.cur.c, root);
  o.kind = OP_INS;
  o.key = 3;
  step(&R[0], &m, &o);
  o.key = 0;
  if (!warm) {
    o.kind = OP_REOPEN;
    step(&R[0], &m, &o);
  }
  if (kind == 2) {
    o.kind = OP_TXNEW;
    o.hist = H_CUR;
    step(&R[0], &m, &o);
    o.kind = OP_TXREM;
    step(&R[0], &m, &o);
  }
  miss = kind == 1 && mc_choose(2);
  if (miss)
    root[0] ^= 1;
  flt_budget = mc_thorough ? 2 : 1;
  flt_fired = flt_munmap = 0;
  flt_begin();
  flt_arm(1, 1);
  it = kind == 2 ? urkel_iter_create(R[0].tx[0]) : urkel_iterate(R[0].db, kind ? root : NULL);
  if (it != NULL) {
    for (i = 0; i < stop; i++)
      if (!urkel_iter_next(it, key, val, &n))
        break;
    urkel_iter_destroy(it);
  }
  flt_arm(0, 0);
  mc_trans(stop);
  if (it == NULL && !flt_fired && !miss)
    mc_fail("no iterator: %d", urkel_errno);
  mc_state(mc_hash(item, &stop, sizeof(stop)) + flt_fired);
  if (R[0].tx[0]) {
    urkel_tx_destroy(R[0].tx[0]);
    R[0].tx[0] = NULL;
  }
  urkel_close(R[0].db);
  R[0].db = NULL;
  if (!flt_munmap)
    check_clean("after an iteration and closing");
}
PART(c17_iter, "C17", "c17-iter", iter_items, iter_run,
  "iterations of the database, a root (also an unknown one) and a transaction, dropped after any number of records, with every single (thorough: two) failing system calls, then closing",
  {"faults"}, FL_ASAN, 0);
PART(c27_c17_iter, "C27", "c27-iter", iter_items, iter_run,
  "in the Windows port: " "iterations of the database, a root (also an unknown one) and a transaction, dropped after any number of records, with every single (thorough: two) failing system calls, then closing", {"faults"}, FL_WIN, 0);

/* Opening what cannot be opened, destroying, and closing right away. */
static long open_items(void) { return 16; }
static void
open_run(long item) {
  struct op o;
  char long_path[5000];
  const char *p = db_path;
  int i, ok, d = mc_choose(2);
  urkel_t *db;
  ou_small(&u, 0, 4);
  env_limits_fast();
  urkel_verify_max_file_size = 130;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < 4; i++) {
    o.kind = OP_INS;
    o.key = i;
    step(&R[0], &m, &o);
  }
  o.kind = OP_CLOSE;
  step(&R[0], &m, &o);
  switch (item) {
    case 0: break;
    case 1: fs_unlink("/w/db/meta"); break;
    case 2: fs_write("/w/db/meta", "short", 5); break;
    case 3: fs_unlink("/w/db/0000000002"); break;
    case 4: fs_truncate("/w/db/0000000001", 0); break;
    case 5: fs_write("/w/db/0000000009", "x", 1); break;
    case 6: fs_unlink("/w/db/lock"); fs_mkdir("/w/db/lock"); break;
    case 7: p = "/w/db/meta"; break;
    case 8: p = "/w/no/db"; break;
    case 9: case 10: case 11:
      memset(long_path, 'a', sizeof(long_path));
      long_path[0] = '/';
      for (i = 100; i < 4999; i += 100)
        long_path[i] = '/';
      long_path[item == 9 ? 4999 : item == 10 ? 1010 : 4090] = 0;
      p = long_path;
      break;
    case 12: fs_write("/w/db/x", "x", 1); break;
    case 13: fs_mkdir("/w/db/0000000099"); break;
    case 14: fs_unlink("/w/db/meta"); fs_mkdir("/w/db/meta"); break;
    case 15: { /* open elsewhere */
      urkel_t *other;
      env_set_proc(1);
      other = urkel_open(db_path);
      if (other == NULL)
        mc_fail("does not open: %d", urkel_errno);
      env_set_proc(0);
      db = urkel_open(db_path);
      if (db || urkel_destroy(db_path))
        mc_fail("not refused while open elsewhere");
      env_set_proc(1);
      urkel_close(other);
      env_set_proc(0);
      check_clean("after refused calls");
      break;
    }
  }
  flt_budget = mc_thorough ? 2 : 1;
  flt_fired = flt_munmap = 0;
  flt_begin();
  flt_arm(1, 1);
  for (i = 0; i < 2; i++) {
    if (d) {
      ok = urkel_destroy(p);
    } else {
      db = urkel_open(p);
      ok = db != NULL;
      if (ok)
        urkel_close(db);
    }
    flt_arm(0, 0);
    mc_trans(1);
    mc_state(mc_hash(item, &ok, sizeof(ok)) + i);
    if (!flt_munmap)
      check_clean(d ? "after destroy" : ok ? "after opening and closing" : "after a failed open");
  }
}
PART(c17_open, "C17", "c17-open", open_items, open_run,
  "opening and closing, and destroying, in 16 circumstances that make it fail or not, with every single (thorough: two) failing system calls: nothing is left",
  {"faults"}, FL_ASAN, 0);
PART(c27_c17_open, "C27", "c27-opening", open_items, open_run,
  "in the Windows port: " "opening and closing, and destroying, in 16 circumstances that make it fail or not, with every single (thorough: two) failing system calls: nothing is left", {"faults"}, FL_WIN, 0);

/* Calls that fail because the files are damaged release everything, too. */
#include "damage.h"
#define DMG(sym, nm, fn, txt) \
  static void sym##_r(long i) { dmg_leaks = 1; fn(i); } \
  PART(sym, "C17", nm, fn##_n, sym##_r, txt, {NULL}, FL_ASAN, 0)
#define dmg_byte_run_n dmg_byte_items
#define dmg_ptr_run_n dmg_ptr_items
#define dmg_cut_run_n dmg_cut_items
#define dmg_file_run_n dmg_file_items
DMG(c17_byte, "c17-byte", dmg_byte_run, "every call on seven databases with any single byte damaged (as in c21-byte), then closed");
DMG(c17_ptr, "c17-ptr", dmg_ptr_run, "the same with every pointer replaced by every other (as in c21-ptr)");
DMG(c17_cut, "c17-cut", dmg_cut_run, "the same with every file cut to every length");
DMG(c17_file, "c17-file", dmg_file_run, "the same with files missing, swapped, added and replaced");

/* Threads that do the same at the same time. */
static long
thr_items(void) {
  const struct op *a;
  long n = conc_alphabet(&a);
  return n * n * CONC_SETUPS;
}
static void
thr_run(long item) {
  const struct op *a;
  int n = conc_alphabet(&a), x, y, s = item % CONC_SETUPS;
  x = item / CONC_SETUPS / n;
  y = item / CONC_SETUPS % n;
  if (y < x || (a[x].kind == OP_TXNEW && a[y].kind == OP_TXNEW))
    mc_prune();
  prog[0].n = prog[1].n = 1;
  prog[0].op[0] = a[x];
  prog[1].op[0] = a[y];
  conc_setup(s);
  conc_run(2, mc_thorough ? 3 : 2, mc_thorough, 0, 0);
  mc_trans(2);
  mc_state(mc_hash(item, &crec[0][0].obs, sizeof(struct obs)) ^ mc_hash(3, &crec[1][0].obs, sizeof(struct obs)));
  real_close(&R[0]);
  check_clean("after two threads and closing");
}
PART(c17_threads, "C17", "c17-threads", thr_items, thr_run,
  "every pair of calls of a 23-call alphabet in two threads, on a cold, a split and a warm database: every schedule of lock operations with up to 2 (thorough 3, also at system calls) preemptions; after closing nothing is left",
  {NULL}, FL_ASAN, 0);
