/* C08 - close and reopen */
#include "seq.h"
#include "../view.h"

static const struct seqcfg seq_cfg = {
  .unis = 3, .nk = 3, .nv = 2, .ntx = 1, .depth = 4, .tdepth = 5, .tunis = 8,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_REOPEN) | A(OP_TXNEW) | A(OP_INJ) | A(OP_TXCLEAR),
  .what = OBS_DB | OBS_HIST, .disk = 1, .start_tx = 1, .clean = 1, .reopen = 1, .still = 1
};
static long s_items(void) { return seq_items(&seq_cfg); }
static void s_run(long i) { seq_run(&seq_cfg, i); }
PART(c08_seq, "C08", "c08-seq", s_items, s_run,
  "every sequence of inserts, removes, commits, clears, reverts and reopenings, then a reopening; contents, every root and the stored files compared; files change by commits only",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg db_cfg = {
  .unis = 4, .nk = 2, .nv = 2, .ntx = 0, .depth = 5, .tdepth = 7, .tunis = 8,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN) | A(OP_INJ),
  .what = OBS_DB | OBS_HIST, .disk = 1, .clean = 1, .reopen = 1, .still = 1
};
static long db_items(void) { return seq_items(&db_cfg); }
static void db_run(long i) { seq_run(&db_cfg, i); }
PART(c08_db, "C08", "c08-db", db_items, db_run,
  "every sequence of direct inserts and removes, reverts and reopenings, then a reopening",
  {NULL}, FL_ASAN, 0);

/* Amounts of data: every place of a commit record relative to the record grid
 * and to the blocks in which they are searched. */
static long align_items(void) { return 1024; }
static void
align_run(long item) {
  static struct universe u;
  static const size_t blocks[] = {38, 76, 114, 380, 1024, 4096};
  uint8_t b[32];
  int8_t c[MAXK], c1[MAXK];
  struct view v = {0};
  int second = mc_choose(4), bl = mc_choose(ARRAY_SIZE(blocks));
  uint8_t r1[32];
  urkel_t *db;
  urkel_tx_t *tx;
  uint64_t files;
  struct rd_commit rc[8];
  char msg[200];
  int n;
  memset(b, 0x0f, 32);
  uni_init(&u);
  uni_key(&u, b);
  uni_key_bits(&u, b, 77);
  uni_val(&u, item, 1);
  uni_val(&u, (item * 7 + 3) % 1024, 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  env_reset();
  env_limits_default();
  urkel_verify_read_buffer = blocks[bl];
  fs_mkdir("/w");
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  must_insert(tx, &u, 0, 0);
  c[0] = 0;
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  memcpy(c1, c, sizeof(c));
  ref_root(&u, c1, r1);
  mc_trans(1);
  switch (second) {
    case 0:
      break;
    case 1:
      must_insert(tx, &u, 1, 1);
      c[1] = 1;
      break;
    case 2: /* the same again */
      break;
    case 3: /* empty */
      if (!urkel_tx_remove(tx, u.key[0]))
        mc_fail("remove fails with error %d", urkel_errno);
      c[0] = -1;
      break;
  }
  if (second > 0 && !urkel_tx_commit(tx))
    mc_fail("second commit fails with error %d", urkel_errno);
  urkel_tx_destroy(tx);
  urkel_close(db);
  files = fs_tree_hash("/", NULL);
  n = rd_history("/w/db", rc, 8, msg, sizeof(msg), 0);
  if (n < 0)
    mc_fail("stored files: %s", msg);
  if (n != 1 + (second > 0) && !(second == 2 && n == 1))
    mc_fail("stored files: %d commits", n);
  rd_free(rc, n);
  v.db = db = must_open("/w/db");
  view_check(&v, &u, c, VW_ALL, "after reopening");
  v.root = r1;
  view_check(&v, &u, c1, VW_ALL, "the first root, after reopening");
  urkel_close(db);
  if (fs_tree_hash("/", NULL) != files)
    mc_fail("opening, reading and closing changes the stored files");
  /* and on */
  db = must_open("/w/db");
  if (!urkel_insert(db, u.key[1], u.val[0], u.len[0]))
    mc_fail("insert after reopening fails with error %d", urkel_errno);
  c[1] = 0;
  urkel_close(db);
  v.root = NULL;
  v.db = db = must_open("/w/db");
  view_check(&v, &u, c, VW_ALL, "after a commit in the second session");
  mc_state(item * 64 + second * 8 + bl);
  urkel_close(db);
  check_clean("after closing");
}
PART(c08_align, "C08", "c08-align", align_items, align_run,
  "a commit of every value size 0..1023 (hence at every place relative to the record grid), a second one that adds, repeats or empties, reopened with every search block size of 38, 76, 114, 380, 1024 and 4096 bytes; then a further session",
  {NULL}, FL_ASAN, 0);

/* Large transactions: many nodes in one commit. */
static long big_items(void) { return mc_thorough ? 300 : 24; }
static void
big_run(long item) {
  static struct universe u;
  uint8_t b[32];
  int8_t c[MAXK];
  struct view v = {0};
  urkel_t *db;
  urkel_tx_t *tx;
  int n = mc_thorough ? item + 1 : (item + 1) * 12, i, half = mc_choose(2), kind = mc_choose(2);
  memset(b, 0xe1, 32);
  uni_init(&u);
  for (i = 0; i < n; i++) {
    if (kind) {
      ref_blake2b(b, 32, NULL, 0, &i, sizeof(i));
      uni_key(&u, b);
    } else {
      uint8_t k[32];
      memcpy(k, b, 32);
      k[30] ^= i >> 8;
      k[31] ^= i;
      uni_key(&u, k);
    }
  }
  uni_val(&u, 9, 1);
  uni_val(&u, 1000, 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  env_reset();
  env_limits_default();
  fs_mkdir("/w");
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  for (i = 0; i < n; i++) {
    must_insert(tx, &u, i, i % 2);
    c[i] = i % 2;
    if (half && i == n / 2 && !urkel_tx_commit(tx))
      mc_fail("commit fails");
    mc_trans(1);
  }
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails");
  urkel_tx_destroy(tx);
  urkel_close(db);
  v.db = db = must_open("/w/db");
  view_check(&v, &u, c, VW_ROOT | VW_MAP | VW_ITER, "after reopening");
  urkel_close(db);
  mc_state(item * 4 + half * 2 + kind);
}
PART(c08_big, "C08", "c08-big", big_items, big_run,
  "commits of up to 300 records at once, dense and scattered keys, in one or two commits, with the shipped limits; reopened",
  {NULL}, FL_ASAN, 0);
