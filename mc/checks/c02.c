/* C02 - the root is a function of the contents */
#include "seq.h"
#include "shape.h"

/* Every order of inserting all keys (or removing them from the full set),
 * with something that fixes hashes in place after each step. */
static int o_nk(void) { return mc_thorough ? 5 : 4; }
static int
fact(int n) {
  return n <= 1 ? 1 : n * fact(n - 1);
}

static long
order_items(void) {
  return (long)(mc_thorough ? 8 : 6) * 2 * fact(o_nk());
}

static void
order_run(long item) {
  static __thread struct universe u;
  int nk = o_nk(), nf = fact(nk), ui = item / (2 * nf), removing = item / nf % 2, p = item % nf;
  int order[8], left[8], i, k;
  int8_t c[MAXK];
  struct view v = {0};
  uint8_t *raw, val[1023];
  size_t n;
  urkel_t *db;
  urkel_tx_t *tx;
  ou_make(&u, ui, nk, 3);
  for (i = 0; i < nk; i++)
    left[i] = i;
  for (i = 0; i < nk; i++) {
    int q = p % (nk - i);
    p /= nk - i;
    order[i] = left[q];
    memmove(left + q, left + q + 1, sizeof(int) * (nk - i - q - 1));
  }
  memset(c, -1, sizeof(c));
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  db = must_open("/w/db");
  v.tx = tx = urkel_tx_create(db, NULL);
  if (removing) {
    for (k = 0; k < nk; k++) {
      must_insert(tx, &u, k, k % 3);
      c[k] = k % 3;
    }
    if (mc_choose(2) && !urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
  }
  for (i = 0; i < nk; i++) {
    k = order[i];
    if (!removing) {
      must_insert(tx, &u, k, k % 3);
      c[k] = k % 3;
    } else {
      if (!urkel_tx_remove(tx, u.key[k]))
        mc_fail("remove fails with error %d", urkel_errno);
      c[k] = -1;
    }
    mc_trans(1);
    switch (mc_choose(i == nk - 1 ? 3 : 7)) {
      case 0:
        break;
      case 1:
        if (!urkel_tx_commit(tx))
          mc_fail("commit fails with error %d", urkel_errno);
        break;
      case 2: /* overwrite and restore */
        if (c[order[0]] >= 0) {
          must_insert(tx, &u, order[0], (c[order[0]] + 1) % 3);
          must_insert(tx, &u, order[0], c[order[0]]);
        } else {
          must_insert(tx, &u, order[0], 0);
          if (!urkel_tx_remove(tx, u.key[order[0]]))
            mc_fail("remove fails with error %d", urkel_errno);
        }
        break;
      case 3:
        view_check(&v, &u, c, VW_ROOT, "between the steps");
        break;
      case 4:
        if (!urkel_tx_commit(tx))
          mc_fail("commit fails with error %d", urkel_errno);
        urkel_tx_destroy(tx);
        urkel_close(db);
        db = must_open("/w/db");
        v.tx = tx = urkel_tx_create(db, NULL);
        break;
      case 5:
        if (!urkel_tx_prove(tx, &raw, &n, u.key[order[nk - 1]]))
          mc_fail("prove fails with error %d", urkel_errno);
        urkel_free(raw);
        break;
      case 6:
        urkel_tx_get(tx, val, &n, u.key[order[nk - 1]]);
        urkel_tx_has(tx, u.key[order[0]]);
        break;
    }
  }
  view_check(&v, &u, c, VW_ROOT, "at the end");
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  v.tx = NULL;
  v.db = db;
  view_check(&v, &u, c, VW_ROOT, "after the commit");
  urkel_tx_destroy(tx);
  urkel_close(db);
  v.db = db = must_open("/w/db");
  view_check(&v, &u, c, VW_ROOT, "after reopening");
  urkel_close(db);
  mc_state(mc_hash(ui * 2 + removing, order, sizeof(int) * nk));
}
PART(c02_order, "C02", "c02-order", order_items, order_run,
  "every order of inserting or removing all keys, with nothing, a commit, an overwrite, a root, a reopening, a proof or reads after each step; the root compared with the documented construction",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg seq_cfg = {
  4, 3, 2, 1, 5, 6,
  A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXROOT) | A(OP_TXPROVE) | A(OP_REOPEN) | A(OP_TXNEW) | A(OP_TXCLEAR),
  0, 0, NULL, 1, 8, 0
};
static long s_items(void) { return seq_items(&seq_cfg); }
/* the root is compared by OP_ROOT / OP_TXROOT of the final observation */
static void s_run(long i) {
  struct seqcfg c = seq_cfg;
  static struct seqcfg keep;
  keep = c;
  keep.what = OBS_ROOTS;
  if (!mc_thorough)
    keep.depth = 4;
  seq_run(&keep, i);
}
PART(c02_seq, "C02", "c02-seq", s_items, s_run,
  "every sequence of inserts, removes, commits, roots, proofs, clears and reopenings over 3 keys x 2 values; all roots compared afterwards",
  {NULL}, FL_ASAN, 0);

static void bits_r(long i) { bits_run(i, VW_ROOT); }
PART(c02_bits, "C02", "c02-bits", bits_items, bits_r,
  "keys base, base^bit i, base^bit j for all i < j in 0..255, every insertion order, uncommitted, committed and reopened in between, one removed, a fourth added; roots after each stage",
  {NULL}, FL_ASAN, 0);
static const struct allcfg all_cfg = {6, 7, 8, 8};
static long all_i(void) { return all_items(&all_cfg); }
static void all_r(long i) { all_run(&all_cfg, i, VW_ROOT); }
PART(c02_all, "C02", "c02-all", all_i, all_r,
  "every contents over the universe's keys changed into every other, at every commit stage; roots",
  {NULL}, FL_ASAN, 0);
static void chain_r(long i) { chain_run(i, VW_ROOT); }
PART(c02_chain, "C02", "c02-chain", chain_items, chain_r,
  "chains of keys up to 257 deep, from the top and from the bottom; roots",
  {NULL}, FL_ASAN, 0);
