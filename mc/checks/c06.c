/* C06 - isolation and atomicity of transactions */
#include "seq.h"

static const struct seqcfg two_cfg = {
  .unis = 2, .nk = 2, .nv = 2, .rnk = 1, .ntx = 2, .depth = 5, .tdepth = 6, .tunis = 4,
  .mask = A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCLEAR) | A(OP_TXINJ)
        | A(OP_TXCOMMIT) | A(OP_INJ),
  .what = OBS_DB | OBS_TX, .setup = 2, .start_tx = 2
};
static long two_items(void) { return seq_items(&two_cfg); }
static void two_run(long i) {
  static struct seqcfg c;
  c = two_cfg;
  if (!mc_thorough)
    c.depth = 4;
  seq_run(&c, i);
}
PART(c06_two, "C06", "c06-two", two_items, two_run,
  "every sequence of operations of two open transactions (insert, remove, clear, inject of every root, commit, destroy, create) and reverts of the database; then both transactions and the database compared",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg keys_cfg = {
  .unis = 2, .nk = 3, .nv = 2, .rnk = 2, .ntx = 2, .depth = 4, .tdepth = 5, .tunis = 8,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXCLEAR) | A(OP_INS) | A(OP_REM) | A(OP_TXROOT),
  .what = OBS_DB | OBS_TX | OBS_ITER, .setup = 3, .start_tx = 2
};
static long keys_items(void) { return seq_items(&keys_cfg); }
static void keys_run(long i) { seq_run(&keys_cfg, i); }
PART(c06_keys, "C06", "c06-keys", keys_items, keys_run,
  "every sequence of inserts, removes, commits, clears and roots in two transactions over two of three stored keys, and of direct changes, each seen by the other side only when committed",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg three_cfg = {
  .unis = 1, .nk = 2, .nv = 2, .rnk = 1, .ntx = 3, .depth = 4, .tdepth = 5, .tunis = 2,
  .mask = A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCLEAR) | A(OP_TXCOMMIT) | A(OP_INJ) | A(OP_TXPROVE),
  .what = OBS_DB | OBS_TX, .setup = 1, .start_tx = 3
};
static long three_items(void) { return seq_items(&three_cfg); }
static void three_run(long i) { seq_run(&three_cfg, i); }
PART(c06_three, "C06", "c06-three", three_items, three_run,
  "every sequence of operations of three open transactions and reverts of the database",
  {NULL}, FL_ASAN, 0);

/* A transaction that goes on after its commits: everything stays usable. */
static const struct seqcfg on_cfg = {
  .unis = 4, .nk = 3, .nv = 2, .ntx = 1, .depth = 5, .tdepth = 6, .tunis = 8,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXCLEAR) | A(OP_TXINJ) | A(OP_INJ),
  .what = OBS_DB | OBS_TX | OBS_HIST | OBS_ITER, .start_tx = 1, .clean = 1
};
static long on_items(void) { return seq_items(&on_cfg); }
static void on_run(long i) {
  static struct seqcfg c;
  c = on_cfg;
  if (!mc_thorough)
    c.depth = 4;
  seq_run(&c, i);
}
PART(c06_on, "C06", "c06-on", on_items, on_run,
  "every sequence of changes, commits, clears and injects in one transaction that stays open, with reverts of the database; then the transaction, the database and every root compared",
  {NULL}, FL_ASAN, 0);
