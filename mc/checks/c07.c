/* C07 - iteration */
#include "seq.h"
#include "shape.h"

static void bits_r(long i) { bits_run(i, VW_ITER); }
PART(c07_bits, "C07", "c07-bits", bits_items, bits_r,
  "keys base, base^bit i, base^bit j for all i < j in 0..255 in every insertion order and commit stage, one removed, a fourth added: iterated after each stage",
  {NULL}, FL_ASAN, 0);
static const struct allcfg all_cfg = {6, 7, 8, 8};
static long all_i(void) { return all_items(&all_cfg); }
static void all_r(long i) { all_run(&all_cfg, i, VW_ITER); }
PART(c07_all, "C07", "c07-all", all_i, all_r,
  "every contents over the universe's keys changed into every other: iterated uncommitted, committed, by root and in a transaction at the root",
  {NULL}, FL_ASAN, 0);
static void chain_r(long i) { chain_run(i, VW_ITER); }
PART(c07_chain, "C07", "c07-chain", chain_items, chain_r,
  "chains up to 257 keys deep, from the top and from the bottom, uncommitted, partly committed, committed and reopened",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg seq_cfg = {
  .unis = 4, .nk = 3, .nv = 2, .ntx = 1, .depth = 4, .tdepth = 6, .tunis = 8,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXITER) | A(OP_REOPEN) | A(OP_TXNEW) | A(OP_TXCLEAR) | A(OP_TXROOT),
  .what = OBS_DB | OBS_TX | OBS_HIST | OBS_ITER, .start_tx = 1
};
static long s_items(void) { return seq_items(&seq_cfg); }
static void s_run(long i) { seq_run(&seq_cfg, i); }
PART(c07_seq, "C07", "c07-seq", s_items, s_run,
  "every sequence of inserts, removes, commits, iterations, clears and reopenings over 3 keys x 2 values; then the transaction, the database and every root iterated",
  {NULL}, FL_ASAN, 0);

/* Iterators stopped half way, several at once, on changed trees. */
static long drop_items(void) { return 8 * 64; }

static void
take(urkel_iter_t *it, const struct universe *u, const struct rec *r, int nr, int *pos) {
  uint8_t key[32], val[1023];
  size_t len = 7777;
  int ok = urkel_iter_next(it, key, val, &len);
  if (*pos >= nr) {
    if (ok || urkel_errno != URKEL_EITEREND)
      mc_fail("the end of an iteration is not reported: %d, error %d", ok, urkel_errno);
    return;
  }
  if (!ok)
    mc_fail("iteration stops at record %d of %d with error %d", *pos, nr, urkel_errno);
  if (memcmp(key, r[*pos].key, 32) || len != r[*pos].len || (len > 0 && memcmp(val, r[*pos].val, len)))
    mc_fail("iteration returns a wrong record at place %d of %d", *pos, nr);
  *pos += 1;
}

static void
drop_run(long item) {
  static struct universe u;
  static int made = -1;
  int ui = item / 64, pres = item % 64, i, nr, nro, pa = 0, pb = 0, stage, na, nb;
  int8_t c[MAXK], old[MAXK];
  struct rec r[MAXK], ro[MAXK];
  struct envstat before, after;
  uint8_t root[32], key[32], val[1023];
  size_t len;
  urkel_t *db;
  urkel_tx_t *tx;
  urkel_iter_t *a, *b;
  if (made != ui) {
    ou_make(&u, ui, 6, 4);
    made = ui;
  }
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  memset(c, -1, sizeof(c));
  memset(old, -1, sizeof(old));
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  stage = mc_choose(4);
  for (i = 0; i < 6; i++)
    if (pres >> i & 1) {
      must_insert(tx, &u, i, i % 4);
      c[i] = i % 4;
      if (stage == 1 && i < 3) {
        old[i] = c[i];
        if (i == 2 || (pres >> (i + 1) & 3) == 0 || 1)
          if (!urkel_tx_commit(tx))
            mc_fail("commit fails");
      }
    }
  if (stage >= 2) {
    if (!urkel_tx_commit(tx))
      mc_fail("commit fails");
    memcpy(old, c, sizeof(c));
  }
  if (stage == 3) {
    urkel_tx_destroy(tx);
    urkel_close(db);
    db = must_open("/w/db");
    tx = urkel_tx_create(db, NULL);
  }
  nr = ref_recs(&u, c, r);
  nro = ref_recs(&u, old, ro);
  ref_root(&u, old, root);
  env_stat(&before);
  a = urkel_iter_create(tx);
  b = urkel_iterate(db, mc_choose(2) ? root : NULL);
  if (a == NULL || b == NULL)
    mc_fail("no iterator: error %d", urkel_errno);
  na = mc_choose(nr + 2);
  nb = mc_choose(nro + 2);
  for (i = 0; i < na || i < nb; i++) {
    if (i < na)
      take(a, &u, r, nr, &pa);
    if (i < nb)
      take(b, &u, ro, nro, &pb);
    mc_trans(1);
  }
  if (mc_choose(2)) {
    urkel_iter_destroy(a);
    urkel_iter_destroy(b);
  } else {
    urkel_iter_destroy(b);
    urkel_iter_destroy(a);
  }
  env_stat(&after);
  /* what was read may be remembered by the transaction, the locks not */
  if (before.fds > after.fds || sched_locks_held())
    mc_fail("a dropped iterator keeps locks");
  /* everything can be changed again */
  if (!urkel_tx_insert(tx, u.key[0], u.val[1], u.len[1]) || !urkel_tx_commit(tx))
    mc_fail("after dropping iterators a commit fails with error %d", urkel_errno);
  urkel_tx_destroy(tx);
  if (!urkel_get(db, val, &len, u.key[0], NULL) || len != u.len[1])
    mc_fail("after dropping iterators a read fails with error %d", urkel_errno);
  (void)key;
  mc_state(mc_hash(item * 4 + stage, c, 8));
  urkel_close(db);
  check_clean("after dropping iterators");
}
PART(c07_drop, "C07", "c07-drop", drop_items, drop_run,
  "two iterators at once (transaction and database or old root) over every contents of six keys, uncommitted, partly committed, committed and reopened, each stopped at every place, dropped in both orders, then changes and a commit",
  {NULL}, FL_ASAN, 0);
