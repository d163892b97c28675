/* C03 - produced proofs verify and tell the truth */
#include "seq.h"
#include "shape.h"

static void bits_r(long i) { bits_run(i, VW_PROVE); }
PART(c03_bits, "C03", "c03-bits", bits_items, bits_r,
  "keys base, base^bit i, base^bit j for all i < j in 0..255 in every insertion order and commit stage: the proofs of those keys and of the fourth corner",
  {NULL}, FL_ASAN, 0);
static const struct allcfg all_cfg = {6, 7, 8, 8};
static long all_i(void) { return all_items(&all_cfg); }
static void all_r(long i) { all_run(&all_cfg, i, VW_PROVE); }
PART(c03_all, "C03", "c03-all", all_i, all_r,
  "every contents over the universe's keys changed into every other, uncommitted, committed, historical by root and in a transaction at the root: the proofs of all keys, present and absent",
  {NULL}, FL_ASAN, 0);
static void chain_r(long i) { chain_run(i, VW_PROVE); }
PART(c03_chain, "C03", "c03-chain", chain_items, chain_r,
  "chains up to 257 keys deep: proofs of all their keys and of absent keys leaving the path anywhere",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg seq_cfg = {
  4, 3, 2, 1, 4, 5,
  A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXPROVE) | A(OP_REOPEN) | A(OP_TXNEW) | A(OP_TXINJ) | A(OP_TXCLEAR),
  OBS_DB | OBS_TX | OBS_HIST | OBS_PROOF, 0, NULL, 1, 8, 0
};
static long s_items(void) { return seq_items(&seq_cfg); }
static void s_run(long i) { seq_run(&seq_cfg, i); }
PART(c03_seq, "C03", "c03-seq", s_items, s_run,
  "every sequence of inserts, removes, commits, proofs, injects and reopenings over 3 keys x 2 values; then proofs of all keys in the transaction, the database and every committed root",
  {NULL}, FL_ASAN, 0);

/* Value sizes */
static long size_items(void) { return 1024; }
static void
size_run(long item) {
  static __thread struct universe u;
  uint8_t b[32];
  int8_t c[MAXK];
  struct view v = {0};
  urkel_t *db;
  urkel_tx_t *tx;
  int stage = mc_choose(3), n = 1 + mc_choose(2);
  memset(b, 0xc3, 32);
  uni_init(&u);
  uni_key(&u, b);
  uni_key_bits(&u, b, 200);
  uni_key_bits(&u, b, 3);
  uni_val(&u, item, 1);
  uni_val(&u, 7, 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  db = must_open("/w/db");
  v.tx = tx = urkel_tx_create(db, NULL);
  must_insert(tx, &u, 0, 0);
  c[0] = 0;
  if (n > 1) {
    must_insert(tx, &u, 1, 1);
    c[1] = 1;
  }
  if (stage && !urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  if (stage == 2) {
    urkel_tx_destroy(tx);
    urkel_close(db);
    v.db = db = must_open("/w/db");
    v.tx = tx = NULL;
  }
  view_check(&v, &u, c, VW_PROVE, "proof");
  if (tx)
    urkel_tx_destroy(tx);
  urkel_close(db);
  mc_trans(1);
  mc_state(item * 2 + n + 17);
}
PART(c03_size, "C03", "c03-size", size_items, size_run,
  "proofs of presence, dead end and collision with every value size from 0 to 1023, uncommitted, committed and reopened",
  {NULL}, FL_ASAN, 0);
