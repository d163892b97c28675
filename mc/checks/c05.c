/* C05 - committed roots stay readable */
#include "seq.h"
#include "../view.h"

static const struct seqcfg db_cfg = {
  .unis = 3, .nk = 2, .nv = 2, .ntx = 0, .depth = 5, .tdepth = 6,
  .mask = A(OP_INS) | A(OP_REM) | A(OP_INJ) | A(OP_REOPEN),
  .what = OBS_DB | OBS_HIST | OBS_PROOF | OBS_ITER, .tunis = 8
};
static long db_items(void) { return seq_items(&db_cfg); }
static void db_run(long i) { seq_run(&db_cfg, i); }
PART(c05_db, "C05", "c05-db", db_items, db_run,
  "every sequence of direct inserts and removes (each a commit), reverts to every committed, empty or unknown root, proofs at old roots and reopenings; then every committed root read, proved and iterated",
  {NULL}, FL_ASAN, 0);

static const struct seqcfg tx_cfg = {
  .unis = 2, .nk = 2, .nv = 2, .ntx = 1, .depth = 5, .tdepth = 6, .rnk = 2,
  .mask = A(OP_TXNEW) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_TXINJ) | A(OP_INJ) | A(OP_REOPEN) | A(OP_TXFREE),
  .what = OBS_DB | OBS_TX | OBS_HIST | OBS_ITER, .tunis = 8, .setup = 1, .start_tx = 1
};
static long tx_items(void) { return seq_items(&tx_cfg); }
static void tx_run(long i) { seq_run(&tx_cfg, i); }
PART(c05_tx, "C05", "c05-tx", tx_items, tx_run,
  "every sequence of transactions started from or injected with every committed, empty or unknown root, changes, commits, reverts and reopenings; then every committed root read and iterated",
  {NULL}, FL_ASAN, 0);

/* Histories, then every order of access to their roots. */
#define OH 5
static long order_items(void) { return 64 * (mc_thorough ? 3 : 1) * 2; }

static void
order_run(long item) {
  static struct universe u;
  static int made = -1;
  struct model m;
  struct op o;
  int deep = item % 2, ui = item / 128, h = item / 2 % 64, i, n, left[8], nl;
  int steps = mc_thorough ? (deep ? 5 : 3) : deep ? 3 : 2;
  if (made != ui) {
    ou_make(&u, ui, 4, 2);
    made = ui;
  }
  env_limits_fast();
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  /* six bits: what the history does */
  for (i = 0; i < 3; i++) {
    o.kind = OP_INS;
    o.key = i;
    o.val = 0;
    step(&R[0], &m, &o);
  }
  if (h & 1) { /* revert in the middle, and on from there */
    o.kind = OP_INJ;
    o.hist = 1;
    step(&R[0], &m, &o);
    o.kind = OP_INS;
    o.key = 3;
    step(&R[0], &m, &o);
  }
  if (h & 2) { /* the same contents again */
    o.kind = OP_INJ;
    o.hist = 2;
    step(&R[0], &m, &o);
    o.kind = OP_INS;
    o.key = 2;
    step(&R[0], &m, &o);
  }
  if (h & 4) { /* empty, and a new start */
    o.kind = OP_INJ;
    o.hist = H_ZERO;
    step(&R[0], &m, &o);
    o.kind = OP_INS;
    o.key = 0;
    o.val = 1;
    step(&R[0], &m, &o);
  }
  if (h & 8) {
    o.kind = OP_REOPEN;
    step(&R[0], &m, &o);
  }
  if (h & 16) { /* a commit after reopening */
    o.kind = OP_INS;
    o.key = 1;
    o.val = 1;
    step(&R[0], &m, &o);
  }
  if (h & 32) {
    o.kind = OP_REOPEN;
    step(&R[0], &m, &o);
  }
  n = m.nhist + 2;
  for (i = 0; i < n; i++)
    left[i] = i - 1; /* unknown, zero, 1 .. */
  nl = n;
  for (i = 0; i < steps && nl > 0; i++) {
    int q = mc_choose(nl);
    o.hist = left[q];
    memmove(left + q, left + q + 1, sizeof(int) * (nl - q - 1));
    nl -= 1;
    switch (deep ? 0 : mc_choose(5)) {
      case 0: o.kind = OP_GET; break;
      case 1: o.kind = OP_PROVE; break;
      case 2: o.kind = OP_ITER; break;
      case 3: o.kind = OP_INJ; break;
      case 4: o.kind = OP_TXNEW; break;
    }
    o.key = i % 3;
    if (o.kind == OP_TXNEW) {
      o.tx = 0;
      step(&R[0], &m, &o);
      if (m.tx[0].live) {
        o.kind = OP_TXINS;
        o.key = 3;
        o.val = 1;
        step(&R[0], &m, &o);
        o.kind = OP_TXCOMMIT;
        step(&R[0], &m, &o);
        o.kind = OP_TXFREE;
        step(&R[0], &m, &o);
      }
    } else {
      step(&R[0], &m, &o);
    }
    mc_trans(1);
    mc_state(model_hash(&m));
  }
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  if (mc_choose(2)) {
    o.kind = OP_REOPEN;
    step(&R[0], &m, &o);
    observe(&R[0], &m, OBS_DB | OBS_HIST);
  }
}
PART(c05_order, "C05", "c05-order", order_items, order_run,
  "64 histories with reverts, repeated contents, empty roots and reopenings; then every order of access to their roots and an unknown one two deep (thorough three) through get, prove, iterate, inject and new transactions that commit, three deep (thorough five) through get; then all roots again",
  {NULL}, FL_ASAN, 0);

/* Long histories, read from the oldest, the newest, or the middle. */
static long long_items(void) { return mc_thorough ? 200 : 60; }
static void
long_run(long item) {
  static struct universe u;
  int n = item + 1, from = mc_choose(4), re = mc_choose(3), i, k, j;
  struct view v = {0};
  uint8_t b[32], root[32];
  int8_t c[MAXK];
  urkel_t *db;
  memset(b, 0x35, 32);
  uni_init(&u);
  uni_key(&u, b);
  for (i = 1; i < 40; i++)
    uni_key_bits(&u, b, (i * 37) % 256);
  uni_val(&u, 3, 1);
  uni_val(&u, 40, 2);
  uni_done(&u);
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  db = must_open("/w/db");
  for (i = 0; i < n; i++) {
    if (!urkel_insert(db, u.key[i % 40], u.val[i / 40 % 2], u.len[i / 40 % 2]))
      mc_fail("insert fails with error %d", urkel_errno);
    if (re == 2 && i % 3 == 1) {
      urkel_close(db);
      db = must_open("/w/db");
    }
  }
  if (re) {
    urkel_close(db);
    db = must_open("/w/db");
  }
  v.db = db;
  v.root = root;
  for (i = 0; i < n; i++) {
    switch (from) {
      case 0: k = i; break;
      case 1: k = n - 1 - i; break;
      case 2: k = (i + n / 2) % n; break;
      default: k = (i * 7) % n; break;
    }
    memset(c, -1, sizeof(c));
    for (j = 0; j <= k; j++)
      c[j % 40] = j / 40 % 2;
    ref_root(&u, c, root);
    view_check(&v, &u, c, i % 8 == 0 ? VW_GET | VW_ITER : VW_ITER, "an old root");
    mc_trans(1);
  }
  mc_state(item * 16 + from * 4 + re);
  urkel_close(db);
}
PART(c05_long, "C05", "c05-long", long_items, long_run,
  "histories of every length up to 60 (thorough 200) commits, with and without reopenings, all their roots read oldest first, newest first, from the middle and scattered",
  {NULL}, FL_ASAN, 0);

/* Roots that were never committed. */
static long unk_items(void) { return 6; }
static void
unk_run(long item) {
  static struct universe u;
  struct model m;
  struct op o;
  uint8_t root[32], cand[32], buf[1023], got[32], *raw;
  size_t n;
  int which = mc_choose(4), bit = mc_choose(258 + 62), i, op = mc_choose(7), warm = item % 3, ok = 0;
  oc c;
  ou_make(&u, item % 4, 3, 2);
  env_limits_fast();
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (o.key = 0; o.key < 3; o.key++) {
    o.kind = OP_INS;
    step(&R[0], &m, &o);
  }
  o.key = 0;
  if (warm) {
    o.kind = OP_REOPEN;
    step(&R[0], &m, &o);
  }
  if (warm == 2) {
    o.kind = OP_GET;
    o.hist = 2;
    step(&R[0], &m, &o);
  }
  if (which == 3) { /* the empty root */
    memset(root, 0, 32);
    if (bit == 256 || bit == 257)
      mc_prune();
  } else {
    c = m.hist[which];
    ref_root(&u, c.c, root);
  }
  memcpy(cand, root, 32);
  if (bit >= 258) {
    /* only the first or only the last so many bytes agree */
    int n = (bit - 258) / 2 + 1;
    for (i = 0; i < 32; i++)
      if (bit & 1 ? i < 32 - n : i >= n)
        cand[i] = ~cand[i];
  } else if (bit < 256) {
    cand[bit / 8] ^= 0x80 >> (bit % 8);
  } else {
    /* a leaf of the tree, or contents that were never committed */
    memset(&c, -1, sizeof(c));
    c.c[bit == 256 ? 1 : which] = bit == 256 ? 0 : 1;
    ref_root(&u, c.c, cand);
  }
  o.kind = OP_TXNEW;
  o.hist = H_CUR;
  step(&R[0], &m, &o);
  o.kind = OP_TXINS;
  o.key = 1;
  o.val = 1;
  step(&R[0], &m, &o);
  urkel_errno = 0;
  switch (op) {
    case 0: ok = urkel_get(R[0].db, buf, &n, u.key[0], cand); break;
    case 1: ok = urkel_has(R[0].db, u.key[0], cand); break;
    case 2: ok = urkel_prove(R[0].db, &raw, &n, u.key[0], cand); break;
    case 3: ok = urkel_iterate(R[0].db, cand) != NULL; break;
    case 4: ok = urkel_inject(R[0].db, cand); break;
    case 5: ok = urkel_tx_create(R[0].db, cand) != NULL; break;
    case 6: ok = urkel_tx_inject(R[0].tx[0], cand); break;
  }
  if (ok)
    mc_fail("a root that was never committed is accepted (operation %d)", op);
  if (urkel_errno != URKEL_ENOTFOUND)
    mc_fail("a root that was never committed is refused with error %d (operation %d)", urkel_errno, op);
  (void)got;
  mc_trans(1);
  mc_state(mc_hash(item, cand, 32));
  observe(&R[0], &m, OBS_DB | OBS_TX | OBS_HIST);
  db_end(&m);
}
PART(c05_unknown, "C05", "c05-unknown", unk_items, unk_run,
  "committed roots and the empty one with each single bit flipped or only some first or last bytes right, hashes of stored leaves and roots of contents never committed, through all seven operations that take a root; they are refused and everything is as before",
  {NULL}, FL_ASAN, 0);
