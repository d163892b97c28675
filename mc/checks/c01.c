/* C01 - the database and its transactions behave as a map */
#include "seq.h"
#include "shape.h"

static const struct seqcfg tx_cfg = {
  4, 3, 2, 1, 5, 6,
  A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_REOPEN) | A(OP_TXNEW),
  OBS_TX | OBS_DB, 0, NULL, 1, 8, 0
};
static long tx_items(void) { return seq_items(&tx_cfg); }
static void tx_run(long i) { seq_run(&tx_cfg, i); }
PART(c01_tx, "C01", "c01-tx", tx_items, tx_run,
  "every sequence of inserts, removes, commits and reopenings in a transaction over 3 keys x 2 values, every key universe, all lookups compared after each prefix",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg db_cfg = {
  4, 3, 2, 0, 5, 6,
  A(OP_INS) | A(OP_REM) | A(OP_REOPEN),
  OBS_DB, 0, NULL, 0, 8, 0
};
static long db_items(void) { return seq_items(&db_cfg); }
static void db_run(long i) { seq_run(&db_cfg, i); }
PART(c01_db, "C01", "c01-db", db_items, db_run,
  "every sequence of direct inserts, removes and reopenings over 3 keys x 2 values",
  {NULL}, FL_ASAN, 0);

static long bits_r(void) { return bits_items(); }
static void c01_bits_run(long i) { bits_run(i, VW_MAP); }
PART(c01_bits, "C01", "c01-bits", bits_r, c01_bits_run,
  "keys base, base^bit i, base^bit j for all i < j in 0..255, every insertion order, uncommitted, committed and reopened in between, one removed, a fourth added; all lookups after each stage",
  {NULL}, FL_ASAN, 0);

static const struct allcfg all_cfg = {6, 7, 8, 8};
static long c01_all_items(void) { return all_items(&all_cfg); }
static void c01_all_run(long i) { all_run(&all_cfg, i, VW_MAP); }
PART(c01_all, "C01", "c01-all", c01_all_items, c01_all_run,
  "every contents over the universe's keys followed by every other, the first uncommitted, committed or committed and later read by its root",
  {NULL}, FL_ASAN, 0);

static long chain_r(void) { return chain_items(); }
static void c01_chain_run(long i) { chain_run(i, VW_MAP); }
PART(c01_chain, "C01", "c01-chain", chain_r, c01_chain_run,
  "chains of keys that each leave the path one bit later, up to 257 keys deep, from the top and from the bottom",
  {NULL}, FL_ASAN, 0);

/* Every value size, with every size class of neighbour. */
static long
size_items(void) {
  return 1030;
}

static void
size_run(long item) {
  static const int other[] = {-1, 0, 255, 1023};
  static __thread struct universe u;
  uint8_t b[32], *copy;
  int8_t c[MAXK];
  struct view v = {0};
  urkel_t *db;
  urkel_tx_t *tx;
  size_t len = item < 1026 ? (size_t)item : item == 1026 ? 65535 : item == 1027 ? 65536 : item == 1028 ? 65537 : 1u << 20;
  int o = mc_choose(4), stage = mc_choose(4), direct = mc_choose(2), ok;
  memset(b, 0x5a, 32);
  uni_init(&u);
  uni_key(&u, b);
  uni_key_bits(&u, b, 13);
  if (len <= 1023)
    uni_val(&u, len, 1);
  if (o)
    uni_val(&u, other[o], 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  if (o) {
    must_insert(tx, &u, 1, u.nv - 1);
    c[1] = u.nv - 1;
    if (direct && !urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
  }
  if (direct && stage == 1) { /* overwrite */
    if (o) {
      must_insert(tx, &u, 0, u.nv - 1);
      c[0] = u.nv - 1;
    }
    if (!urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
  }
  copy = malloc(len > 0 ? len : 1);
  memset(copy, 0x11, len > 0 ? len : 1);
  if (len <= 1023 && len > 0)
    memcpy(copy, u.val[0], len);
  urkel_errno = 0;
  if (direct)
    ok = urkel_insert(db, u.key[0], copy, len);
  else
    ok = urkel_tx_insert(tx, u.key[0], len == 0 && stage == 2 ? NULL : copy, len);
  free(copy);
  if (len > 1023) {
    if (ok)
      mc_fail("a value of %zu bytes is accepted", len);
    if (urkel_errno != URKEL_EINVAL)
      mc_fail("a value of %zu bytes is refused with error %d", len, urkel_errno);
  } else {
    if (!ok)
      mc_fail("a value of %zu bytes is refused with error %d", len, urkel_errno);
    c[0] = 0;
  }
  mc_trans(1);
  if (!direct && stage >= 1) {
    v.tx = tx;
    view_check(&v, &u, c, VW_ALL, "in the transaction");
    v.tx = NULL;
    if (!urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
  }
  urkel_tx_destroy(tx);
  if (!direct && stage == 0)
    memset(c, -1, sizeof(c));
  if (stage >= 2) {
    urkel_close(db);
    db = must_open("/w/db");
  }
  v.db = db;
  view_check(&v, &u, c, VW_ALL, "in the database");
  if (stage == 3 && len <= 1023) {
    /* the committed value is rewritten next to a new one */
    tx = urkel_tx_create(db, NULL);
    if (c[1] >= 0) {
      if (!urkel_tx_remove(tx, u.key[1]))
        mc_fail("remove fails with error %d", urkel_errno);
      c[1] = -1;
    } else {
      must_insert(tx, &u, 1, u.nv - 1);
      c[1] = u.nv - 1;
    }
    if (!urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
    urkel_tx_destroy(tx);
    view_check(&v, &u, c, VW_ALL, "after another change");
  }
  mc_state(mc_hash(len, c, 4));
  urkel_close(db);
}
PART(c01_size, "C01", "c01-size", size_items, size_run,
  "every value size from 0 to 1025 and four larger ones, alone, next to and over values of other size classes, in a transaction and directly, uncommitted, committed and reopened",
  {NULL}, FL_ASAN, 0);

/* Values of one length that differ in a single byte, and beginnings of values;
 * of keys of all zeros, all ones and between. */
static void
put(urkel_t *db, urkel_tx_t *tx, const uint8_t *key, const uint8_t *val, size_t n, const char *what, long at) {
  uint8_t got[1024 + 16];
  size_t len = 9999;
  int ok = tx ? urkel_tx_insert(tx, key, val, n) : urkel_insert(db, key, val, n);
  if (!ok)
    mc_fail("%s (%ld of %zu bytes): insert fails with error %d", what, at, n, urkel_errno);
  ok = tx ? urkel_tx_get(tx, got, &len, key) : urkel_get(db, got, &len, key, NULL);
  if (!ok)
    mc_fail("%s (%ld of %zu bytes): get fails with error %d", what, at, n, urkel_errno);
  if (len != n || (n > 0 && memcmp(got, val, n) != 0))
    mc_fail("%s (%ld of %zu bytes): get returns something else than the value last written", what, at, n);
  mc_trans(1);
}
static long value_items(void) { return 1024; }
static void
value_run(long item) {
  uint8_t key[2][32], val[1024], root[32], want[32];
  size_t n = item, i;
  struct rec rec[2];
  urkel_t *db;
  urkel_tx_t *tx;
  int kind = mc_thorough ? mc_choose(6) : (int)(item * 7 / 3 % 6);
  memset(key[0], kind % 3 == 0 ? 0 : kind % 3 == 1 ? 0xff : 0x5a, 32);
  memcpy(key[1], key[0], 32);
  key[1][item / 6 % 32] ^= 1 << item % 8;
  for (i = 0; i < n; i++)
    val[i] = i * 7 + 1;
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  if (kind >= 3)
    put(db, tx, key[1], (const uint8_t *)"neighbour", 9, "neighbour", 9);
  put(db, tx, key[0], val, n, "first", 0);
  for (i = 0; i < n; i++) {
    val[i] = val[i] ? 0 : 1; /* (ever more zeros from the front) */
    put(db, tx, key[0], val, n, "byte changed", i);
  }
  for (i = n; i-- > 0;) {
    val[i] ^= i % 3 ? 0x80 : 0x01;
    put(db, tx, key[0], val, n, "byte changed back", i);
  }
  if (n > 0) {
    put(db, tx, key[0], val, n - 1, "beginning", n - 1);
    put(db, tx, key[0], val, n, "longer", n);
    memset(val, 0, n);
    put(db, tx, key[0], val, n - 1, "zeros", n - 1);
    put(db, tx, key[0], val, n, "more zeros", n);
  }
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  /* over what is stored */
  for (i = 0; i < n; i += i < 2 || i + 2 >= n ? 1 : i < 3 ? n / 2 - 1 : n - 2 - i) {
    val[i] ^= 0x40;
    put(db, i & 1 ? tx : NULL, key[0], val, n, "stored byte changed", i);
    if (i & 1 && !urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
    if (!(i & 1))
      urkel_tx_clear(tx);
  }
  urkel_tx_destroy(tx);
  memset(rec, 0, sizeof(rec));
  rec[0].key = key[0];
  rec[0].val = val;
  rec[0].len = n;
  rec[1].key = key[1];
  rec[1].val = (const uint8_t *)"neighbour";
  rec[1].len = 9;
  urkel_root(db, root);
  if (kind >= 3 && memcmp(rec[1].key, rec[0].key, 32) < 0) {
    struct rec t = rec[0];
    rec[0] = rec[1];
    rec[1] = t;
  }
  ref_root_recs(rec, kind >= 3 ? 2 : 1, want);
  if (memcmp(root, want, 32) != 0)
    mc_fail("the root is not that of the contents");
  urkel_close(db);
  db = must_open("/w/db");
  {
    uint8_t got[1024];
    size_t len;
    if (!urkel_get(db, got, &len, key[0], NULL))
      mc_fail("after reopening, get fails with error %d", urkel_errno);
    if (len != n || (n > 0 && memcmp(got, val, n) != 0))
      mc_fail("after reopening, get returns something else than the value last written");
  }
  urkel_close(db);
  mc_state(item * 8 + kind);
  check_clean("after closing");
}
PART(c01_value, "C01", "c01-values", value_items, value_run,
  "every length of value from 0 to 1023, overwritten by values that differ in a single byte (every one, in the transaction; some, stored ones), that are a byte shorter or longer or all zeros; keys of zeros, ones and others, with and without a neighbour (thorough: all of these)",
  {NULL}, FL_ASAN, 0);
