/* C23 - undefined behaviour: memory that was never written, buffers of exactly
 * the documented sizes, and unusual but legal arguments */
#include "fault.h"
#include "damage.h"
#include "shape.h"

#ifdef MC_MSAN
#include <sanitizer/msan_interface.h>
#define DEFINED(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define DEFINED(p, n) ((void)0)
#endif

#define ALLDB (A(OP_INS) | A(OP_REM) | A(OP_GET) | A(OP_HAS) | A(OP_PROVE) | A(OP_ITER) | A(OP_INJ) | A(OP_REOPEN))
#define ALLTX (A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXGET) | A(OP_TXHAS) | A(OP_TXPROVE) | A(OP_TXROOT) | \
               A(OP_TXITER) | A(OP_TXCLEAR) | A(OP_TXINJ) | A(OP_TXCOMMIT))

#define SEQ(sym, nm, what_, ...) \
  static const struct seqcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return seq_items(&sym##_c); } \
  static void sym##_r(long i) { seq_run(&sym##_c, i); } \
  PART(sym, "C23", nm, sym##_i, sym##_r, what_, {NULL}, FL_MSAN, 0)

static void
lim_small(void) {
  env_limits_fast();
  urkel_verify_max_file_size = 1300;
  urkel_verify_write_buffer = 200;
  urkel_verify_max_open_files = 2;
}

SEQ(c23_db, "c23-db", "every sequence of all database operations, with memory tracked byte by byte: nothing unwritten is used, and every output of a successful call is written",
  .unis = 2, .tunis = 8, .nk = 3, .nv = 3, .depth = 3, .tdepth = 4, .mask = ALLDB, .what = OBS_DB | OBS_HIST | OBS_PROOF | OBS_ITER, .setup = 2, .clean = 1);
SEQ(c23_tx, "c23-tx", "the same for all operations of a transaction",
  .unis = 3, .tunis = 8, .nk = 3, .nv = 2, .ntx = 1, .depth = 3, .tdepth = 4, .mask = ALLTX, .what = OBS_TX | OBS_DB, .start_tx = 1, .setup = 2, .clean = 1);
SEQ(c23_small, "c23-small", "the same with small files and buffers",
  .unis = 3, .tunis = 8, .nk = 4, .nv = 4, .ntx = 1, .depth = 3, .tdepth = 4, .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_REOPEN) | A(OP_TXNEW),
  .what = OBS_TX | OBS_DB | OBS_HIST, .start_tx = 1, .setup = 3, .clean = 1, .limits = lim_small);

#define FLT(sym, nm, what, ...) \
  static const struct fltcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return flt_items(&sym##_c); } \
  static void sym##_r(long i) { flt_run(&sym##_c, i); } \
  PART(sym, "C23", nm, sym##_i, sym##_r, what, {"faults", "failed calls"}, FL_MSAN, 0)
static const int sizes[] = {114, 300, 100000, 0};
FLT(c23_fdb, "c23-fault-db", "every database operation on a reopened database of one and of many files with every single failing, short or interrupted system call",
  .unis = 2, .tunis = 3, .nk = 3, .nv = 2, .setup = 2, .depth = 1, .tdepth = 2, .faults = 1, .tfaults = 1, .sticky = 1,
  .sizes = sizes, .maxopen = 2, .mask = ALLDB);
FLT(c23_ftx, "c23-fault-tx", "every two operations of a transaction with every single failing, short or interrupted system call",
  .unis = 1, .tunis = 3, .nk = 3, .nv = 2, .ntx = 1, .setup = 2, .start_tx = 1, .depth = 2, .tdepth = 2, .faults = 1, .tfaults = 2, .sticky = 1,
  .sizes = sizes, .mask = ALLTX);

/* ------------------------------------------------------------------ */
/* Damaged files                                                        */
/* ------------------------------------------------------------------ */

static long dmgb_i(void) { return dmg_byte_items(); }
PART(c23_byte, "C23", "c23-byte", dmgb_i, dmg_byte_run,
  "every byte of seven databases damaged as in c21-byte, with memory tracked byte by byte", {NULL}, FL_MSAN, 0);
PART(c23_ptr, "C23", "c23-ptr", dmg_ptr_items, dmg_ptr_run,
  "every pointer of seven databases replaced as in c21-ptr, with memory tracked byte by byte", {NULL}, FL_MSAN, 0);
PART(c23_cut, "C23", "c23-cut", dmg_cut_items, dmg_cut_run,
  "every file of seven databases cut to every length, with memory tracked byte by byte", {NULL}, FL_MSAN, 0);

/* ------------------------------------------------------------------ */
/* Arguments                                                            */
/* ------------------------------------------------------------------ */

/* A copy at the very end of its memory, at the given alignment. */
struct ex { uint8_t *mem, *p; size_t n; uint8_t keep[1100]; };
static void
ex_in(struct ex *e, const void *src, size_t n, int al) {
  e->mem = malloc(n + al + (n + al == 0));
  e->p = e->mem + al;
  e->n = n;
  if (n > 0)
    memcpy(e->p, src, n);
  memcpy(e->keep, e->p, n < sizeof(e->keep) ? n : sizeof(e->keep));
}
static void
ex_done(struct ex *e, const char *what) {
  if (e->n <= sizeof(e->keep) && memcmp(e->keep, e->p, e->n) != 0)
    mc_fail("%s changes its input", what);
  free(e->mem);
}

#define NCALL 14
static long arg_items(void) { return NCALL * 8L * 8; }
static void
arg_run(long item) {
  static const int lens[] = {0, 1, 31, 255, 256, 511, 512, 1022, 1023};
  static struct universe u;
  uint8_t *root, *buf, *okey, *raw = NULL, val[1024], zero[32] = {0}, want[32];
  int call = item % NCALL, al = item / NCALL % 8, ui = item / NCALL / 8;
  int li = mc_choose(ARRAY_SIZE(lens)), present = mc_choose(2), stage = mc_choose(3), nul, ex, ok, i;
  size_t len, n;
  struct ex k, v, h, p;
  urkel_t *db;
  urkel_tx_t *tx = NULL;
  urkel_iter_t *it;
  ou_small(&u, ui, 5);
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  db = urkel_open("/w/db");
  if (db == NULL)
    mc_fail("open fails with error %d", urkel_errno);
  for (i = 0; i < (int)sizeof(val); i++)
    val[i] = i * 3 + 1;
  tx = urkel_tx_create(db, NULL);
  for (i = 0; i < 4; i++)
    if (!urkel_tx_insert(tx, u.key[i], val, i == 0 ? lens[li] : 9))
      mc_fail("insert fails with error %d", urkel_errno);
  if (stage > 0 && !urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  if (stage == 2) {
    urkel_tx_destroy(tx);
    urkel_close(db);
    db = urkel_open("/w/db");
    tx = db ? urkel_tx_create(db, NULL) : NULL;
    if (tx == NULL)
      mc_fail("reopening fails with error %d", urkel_errno);
  }
  ex_in(&k, present ? u.key[0] : u.key[4], 32, al);
  ex_in(&v, val, lens[li], al);
  root = (uint8_t *)malloc(32 + al) + al;
  okey = (uint8_t *)malloc(32 + al) + al;
  buf = (uint8_t *)malloc(1023 + al) + al;
  urkel_tx_root(tx, root);
  DEFINED(root, 32);
  memcpy(want, root, 32);
  len = 4711;
  nul = lens[li] == 0 && al % 2;
  switch (call) {
    case 0: /* get */
      ok = urkel_tx_get(tx, buf, &len, k.p);
      DEFINED(&len, sizeof(len));
      if (ok != present || len != (size_t)(ok ? lens[li] : 0))
        mc_fail("get gives %d and %zu bytes", ok, len);
      DEFINED(buf, len);
      if (memcmp(buf, val, len) != 0)
        mc_fail("get gives a wrong value");
      break;
    case 1:
      if (stage == 0)
        break;
      ex_in(&h, root, 32, al);
      ok = urkel_get(db, buf, &len, k.p, h.p);
      DEFINED(&len, sizeof(len));
      if (ok != present || len != (size_t)(ok ? lens[li] : 0))
        mc_fail("get gives %d and %zu bytes", ok, len);
      DEFINED(buf, len);
      ex_done(&h, "get");
      /* and for an unknown root */
      memset(want, 0x42, 32);
      ex_in(&h, want, 32, al);
      len = 4711;
      if (urkel_get(db, buf, &len, k.p, h.p) || len != 0)
        mc_fail("get under an unknown root gives %zu bytes", len);
      ex_done(&h, "get");
      break;
    case 2:
      if (urkel_tx_has(tx, k.p) != present)
        mc_fail("has is wrong");
      break;
    case 3: /* insert; no value at all is a value of no bytes */
      ok = urkel_tx_insert(tx, k.p, nul ? NULL : v.p, lens[li]);
      if (!ok)
        mc_fail("insert fails with error %d", urkel_errno);
      memset(v.p, 0xee, lens[li]); /* the library has its own copy */
      ok = urkel_tx_get(tx, buf, &len, k.p);
      if (!ok || len != (size_t)lens[li] || memcmp(buf, val, len) != 0)
        mc_fail("a value inserted is not there");
      memcpy(v.p, val, lens[li]);
      break;
    case 4:
      ok = urkel_insert(db, k.p, nul ? NULL : v.p, lens[li]);
      if (!ok)
        mc_fail("insert fails with error %d", urkel_errno);
      ok = urkel_get(db, buf, &len, k.p, NULL);
      if (!ok || len != (size_t)lens[li] || memcmp(buf, val, len) != 0)
        mc_fail("a value inserted is not there");
      break;
    case 5:
      if (urkel_tx_remove(tx, k.p) != present)
        mc_fail("remove is wrong");
      break;
    case 6: /* prove, verify */
    case 7:
      if (call == 7 && stage == 0)
        break;
      n = 4711;
      ok = call == 6 ? urkel_tx_prove(tx, &raw, &n, k.p) : urkel_prove(db, &raw, &n, k.p, root);
      if (!ok)
        mc_fail("prove fails with error %d", urkel_errno);
      DEFINED(&n, sizeof(n));
      DEFINED(raw, n);
      ex_in(&p, raw, n, al);
      ex_in(&h, root, 32, al);
      urkel_free(raw);
      ex = 4711;
      ok = urkel_verify(&ex, buf, &len, p.p, n, k.p, h.p);
      if (!ok || ex != present)
        mc_fail("verify gives %d, %d", ok, ex);
      DEFINED(&ex, sizeof(ex));
      DEFINED(&len, sizeof(len));
      if (present) {
        DEFINED(buf, len);
        if (len != (size_t)lens[li] || memcmp(buf, val, len) != 0)
          mc_fail("verify gives a wrong value");
      } else if (len != 0) {
        mc_fail("verify of absence gives %zu bytes", len);
      }
      ex_done(&p, "verify");
      /* every prefix of the proof, in memory of its size */
      for (i = 0; i < (int)n; i++) {
        struct ex q;
        ex_in(&q, p.keep, n < sizeof(p.keep) ? i : 0, al);
        if (n < sizeof(p.keep) && urkel_verify(&ex, buf, &len, q.p, i, k.p, h.p))
          mc_fail("a proof cut to %d bytes verifies", i);
        free(q.mem);
        if (n >= sizeof(p.keep))
          break;
      }
      if (urkel_verify(&ex, buf, &len, NULL, 0, k.p, h.p) || urkel_errno != URKEL_EINVAL)
        mc_fail("an empty proof is not refused as invalid");
      ex_done(&h, "verify");
      break;
    case 8: /* iterate: with and without values */
    case 9:
      it = call == 8 ? urkel_iter_create(tx) : urkel_iterate(db, NULL);
      if (it == NULL)
        mc_fail("iterating fails with error %d", urkel_errno);
      i = 0;
      for (;;) {
        len = 4711;
        ok = present ? urkel_iter_next(it, okey, buf, &len) : urkel_iter_next(it, okey, NULL, NULL);
        if (!ok)
          break;
        DEFINED(okey, 32);
        if (present) {
          DEFINED(&len, sizeof(len));
          DEFINED(buf, len);
        }
        i += 1;
      }
      if (urkel_errno != URKEL_EITEREND || i != (call == 9 && stage == 0 ? 0 : 4))
        mc_fail("iterating yields %d records, then error %d", i, urkel_errno);
      urkel_iter_destroy(it);
      break;
    case 10: /* hash */
      urkel_hash(root, nul ? NULL : v.p, lens[li]);
      DEFINED(root, 32);
      ref_blake2b(want, 32, NULL, 0, val, lens[li]);
      if (memcmp(root, want, 32) != 0)
        mc_fail("wrong hash");
      break;
    case 11: /* roots and reverting */
      urkel_root(db, root);
      DEFINED(root, 32);
      ex_in(&h, stage ? root : zero, 32, al);
      ok = urkel_inject(db, h.p) && urkel_tx_inject(tx, h.p);
      if (!ok)
        mc_fail("going to a known root fails with error %d", urkel_errno);
      ex_done(&h, "inject");
      break;
    case 12: /* too long a value: not even looked at */
      if (urkel_tx_insert(tx, k.p, v.p, 1024 + li * 1000) || urkel_errno != URKEL_EINVAL)
        mc_fail("an oversized value is not refused");
      if (urkel_insert(db, k.p, v.p, (size_t)-1 - li) || urkel_errno != URKEL_EINVAL)
        mc_fail("an oversized value is not refused");
      break;
    default: /* a transaction on a root, cleared, over-written twice */
      ex_in(&h, stage ? root : zero, 32, al);
      urkel_tx_destroy(tx);
      tx = urkel_tx_create(db, h.p);
      if (tx == NULL)
        mc_fail("a transaction on a known root fails with error %d", urkel_errno);
      ex_done(&h, "creating a transaction");
      if (!urkel_tx_insert(tx, k.p, v.p, lens[li]) || !urkel_tx_insert(tx, k.p, val, lens[li] / 2))
        mc_fail("insert fails with error %d", urkel_errno);
      urkel_tx_clear(tx);
      if (urkel_tx_has(tx, k.p) != (present && stage))
        mc_fail("a cleared transaction shows something else");
      break;
  }
  mc_trans(1);
  mc_state(item * 64 + li * 8 + present * 4 + stage);
  ex_done(&k, "a call");
  ex_done(&v, "a call");
  free(root - al);
  free(okey - al);
  free(buf - al);
  urkel_tx_destroy(tx);
  urkel_close(db);
}
PART(c23_args, "C23", "c23-args", arg_items, arg_run,
  "every public call with keys, values, roots, proofs and outputs in memory of exactly the documented size at every alignment, nine value sizes, missing values of no bytes, oversized values, every prefix of a proof; on uncommitted, committed and reopened trees of 8 universes; inputs unchanged, outputs written",
  {NULL}, FL_ASAN | FL_MSAN, 0);

/* ------------------------------------------------------------------ */
/* Deep and long                                                        */
/* ------------------------------------------------------------------ */

static long chain_i(void) { return mc_thorough ? chain_items() : (chain_items() + 3) / 4; }
static void chain_r(long i) { chain_run(mc_thorough ? i : i * 4, VW_ALL); }
PART(c23_chain, "C23", "c23-chain", chain_i, chain_r,
  "chains up to 257 keys deep (quick: every fourth), everything read, iterated and proved, with memory tracked byte by byte", {NULL}, FL_MSAN, 0);
static const struct allcfg all_cfg = {4, 6, 8, 8};
static long all_i(void) { return all_items(&all_cfg); }
static void all_r(long i) { all_run(&all_cfg, i, VW_ALL); }
PART(c23_all, "C23", "c23-all", all_i, all_r,
  "every contents over four (thorough six) keys in 8 universes changed into every other, with memory tracked byte by byte", {NULL}, FL_MSAN, 0);

/* Files closed and opened again, hundreds of times: whatever a random choice
 * among them reads and writes stays in bounds. */
static long evict_items(void) { return 8 * (mc_thorough ? 40 : 12) * 2; }
static void
evict_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  struct real *r = &R[0];
  int lim = 1 + item % 8, when = item / 8 % 2, seed = item / 16, i, n;
  ou_small(&u, seed % 3, 6);
  env_limits_fast();
  urkel_verify_max_file_size = 120;
  urkel_verify_max_open_files = lim;
  env_seed = seed * 7919 + 1;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  n = mc_thorough ? 60 : 24;
  for (i = 0; i < n; i++) {
    o.kind = i % 5 == 4 ? OP_REM : OP_INS;
    o.key = i * 5 % 6;
    o.val = i / 6 & 1;
    step(r, &m, &o);
    if (when == 0 || i % 8 == 7)
      observe(r, &m, OBS_DB | OBS_HIST);
    mc_trans(1);
    mc_state(mc_hash(item, &i, sizeof(i)) ^ env_open_data_files());
  }
  env_seed = 0;
  observe(r, &m, OBS_DB | OBS_HIST | OBS_ITER | OBS_PROOF);
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  db_end(&m);
}
PART(c23_evict, "C23", "c23-evict", evict_items, evict_run,
  "limits of one to eight open files and several seeds of the random eviction, with many files and all old roots read after every commit or every eighth",
  {NULL}, FL_ASAN | FL_MSAN, 0);
