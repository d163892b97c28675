#include "shape.h"

static void
base_key(uint8_t *b, int kind) {
  int i;
  for (i = 0; i < 32; i++)
    b[i] = kind == 0 ? (i * 73 + 41) ^ (i << 3) : kind == 1 ? 0 : 255;
}

static void
fresh(void) {
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
}

/* ------------------------------------------------------------------ */
/* Keys base, base^bit i, base^bit j, base^bits i,j for all i < j       */
/* ------------------------------------------------------------------ */

long
bits_items(void) {
  return (mc_thorough ? 3 : 1) * 256L;
}

static const uint8_t perms3[6][3] = {
  {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}
};

void
bits_run(long item, int what) {
  int i = item % 256, j, kind = item / 256, p, cm, t, rm;
  static __thread struct universe u;
  int8_t c[MAXK];
  struct view v = {0};
  uint8_t b[32];
  urkel_t *db;
  urkel_tx_t *tx;

  if (i == 255)
    mc_prune();
  j = i + 1 + mc_choose(255 - i);
  p = mc_choose(6);
  cm = mc_choose(mc_thorough ? 8 : 4);
  rm = mc_thorough ? mc_choose(3) : 0;
  base_key(b, kind);
  uni_init(&u);
  uni_key(&u, b);
  uni_key_bits(&u, b, i);
  uni_key_bits(&u, b, j);
  b[i / 8] ^= 0x80 >> (i % 8);
  uni_key_bits(&u, b, j);
  uni_val(&u, 3, 1);
  uni_val(&u, (i * 5 + j) % 1024, 2);
  uni_val(&u, 300, 3);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  fresh();
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  v.tx = tx;
  for (t = 0; t < 3; t++) {
    int k = perms3[p][t];
    must_insert(tx, &u, k, t);
    c[k] = t;
    mc_trans(1);
    if (cm >> t & 1 || (!mc_thorough && t == 1 && cm == 2)) {
      if (!urkel_tx_commit(tx))
        mc_fail("commit fails with error %d", urkel_errno);
      if (cm == 3 || (cm & 4)) {
        urkel_tx_destroy(tx);
        urkel_close(db);
        db = must_open("/w/db");
        v.tx = tx = urkel_tx_create(db, NULL);
      }
    }
  }
  view_check(&v, &u, c, what, "with three keys");
  rm = perms3[p][rm];
  if (!urkel_tx_remove(tx, u.key[rm]))
    mc_fail("remove fails with error %d", urkel_errno);
  c[rm] = -1;
  mc_trans(1);
  view_check(&v, &u, c, what, "after removing one of three keys");
  must_insert(tx, &u, 3, 0);
  c[3] = 0;
  view_check(&v, &u, c, what, "after inserting a fourth key");
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  urkel_tx_destroy(tx);
  v.tx = NULL;
  v.db = db;
  view_check(&v, &u, c, what, "after committing");
  mc_state(mc_hash(kind * 65536 + i * 256 + j, c, 4));
  urkel_close(db);
}

/* ------------------------------------------------------------------ */
/* Deep chains                                                          */
/* ------------------------------------------------------------------ */

/* n keys: base and base with bit b flipped for the n-1 last (or first) bits */
static int
chain_len(int i) {
  static const int q[] = {
    1, 2, 3, 8, 9, 33, 120, 127, 128, 129, 136, 200, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257
  };
  if (mc_thorough)
    return i < 257 ? i + 1 : 0;
  return i < (int)ARRAY_SIZE(q) ? q[i] : 0;
}

static int
chain_count(void) {
  int i = 0;
  while (chain_len(i))
    i++;
  return i;
}

long chain_items(void) { return chain_count() * 8L; }

void
chain_run(long item, int what) {
  int n = chain_len(item / 8), kind = item % 2, low = item / 2 % 2, mode = item / 4 % 2, i;
  static __thread struct universe u;
  int8_t c[MAXK];
  struct view v = {0};
  uint8_t b[32], x[32];
  urkel_t *db;
  urkel_tx_t *tx;
  int rm = mc_choose(2);
  base_key(b, kind ? 2 : 0);
  uni_init(&u);
  uni_key(&u, b);
  for (i = 0; i < n - 1; i++)
    uni_key_bits(&u, b, low ? i : 255 - i);
  uni_val(&u, 2, 1);
  uni_val(&u, 5, 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  fresh();
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  v.tx = tx;
  for (i = 0; i < n; i++) {
    int k = mode ? n - 1 - i : i;
    must_insert(tx, &u, k, k % 2);
    c[k] = k % 2;
    mc_trans(1);
    if (mode && i == n / 2 && !urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
  }
  view_check(&v, &u, c, what, "uncommitted chain");
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  view_check(&v, &u, c, what, "committed chain");
  urkel_tx_destroy(tx);
  urkel_close(db);
  db = must_open("/w/db");
  v.tx = NULL;
  v.db = db;
  view_check(&v, &u, c, what, "reopened chain");
  /* absent keys: one more flipped bit below each branch */
  if (what & (VW_MAP | VW_PROVE))
    for (i = 0; i < 256; i += mc_thorough ? 1 : 17) {
      int k;
      memcpy(x, u.key[n / 2], 32);
      x[i / 8] ^= 0x80 >> (i % 8);
      for (k = 0; k < u.nk; k++)
        if (memcmp(u.key[k], x, 32) == 0)
          break;
      if (k == u.nk)
        view_absent(&v, &u, c, x, what, "absent key of a chain");
    }
  if (n > 1) {
    int k = rm ? n - 1 : 0;
    tx = urkel_tx_create(db, NULL);
    v.tx = tx;
    if (!urkel_tx_remove(tx, u.key[k]))
      mc_fail("remove fails with error %d", urkel_errno);
    c[k] = -1;
    view_check(&v, &u, c, what & ~VW_PROVE, "chain after a remove");
    urkel_tx_destroy(tx);
  }
  mc_state(mc_hash(item, c, sizeof(c)));
  urkel_close(db);
}

/* ------------------------------------------------------------------ */
/* All contents of a universe, at every stage                           */
/* ------------------------------------------------------------------ */

static int a_nk(const struct allcfg *c) { return mc_thorough ? c->tnk : c->nk; }

long
all_items(const struct allcfg *c) {
  return (long)(mc_thorough ? c->tunis : c->unis) << a_nk(c);
}

/* Contents chosen by the item (presence) and by choice (a second content,
 * committed over the first one, so that the first is a historical root). */
void
all_run(const struct allcfg *cfg, long item, int what) {
  static __thread struct universe u;
  static __thread int made = -1;
  int nk = a_nk(cfg), ui = item >> nk, pres = item & ((1 << nk) - 1);
  int pres2 = mc_choose(1 << nk), stage = mc_choose(3), k;
  int8_t c[MAXK], c2[MAXK], e[MAXK];
  struct view v = {0};
  uint8_t root[32];
  urkel_t *db;
  urkel_tx_t *tx;
  if (made != ui) {
    ou_make(&u, ui, nk, 4);
    made = ui;
  }
  memset(c, -1, sizeof(c));
  memset(c2, -1, sizeof(c2));
  memset(e, -1, sizeof(e));
  fresh();
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  v.tx = tx;
  for (k = 0; k < nk; k++)
    if (pres >> k & 1) {
      must_insert(tx, &u, k, k % 4);
      c[k] = k % 4;
    }
  if (pres2 == 0 && stage == 0)
    view_check(&v, &u, c, what, "uncommitted");
  if (stage > 0 && !urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  if (pres2 == 0 && stage > 0)
    view_check(&v, &u, c, what, "committed");
  /* the second content, from the first */
  for (k = 0; k < nk; k++) {
    int want = pres2 >> k & 1, have = pres >> k & 1;
    if (want && (!have || (k & 1))) {
      must_insert(tx, &u, k, (k + 1) % 4);
      c2[k] = (k + 1) % 4;
    } else if (want) {
      c2[k] = c[k];
    } else if (have && !urkel_tx_remove(tx, u.key[k])) {
      mc_fail("remove fails with error %d", urkel_errno);
    }
    mc_trans(1);
  }
  view_check(&v, &u, c2, what, "second contents, uncommitted");
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
  urkel_tx_destroy(tx);
  v.tx = NULL;
  if (stage == 2) {
    urkel_close(db);
    db = must_open("/w/db");
  }
  v.db = db;
  view_check(&v, &u, c2, what, "second contents, committed");
  if (stage > 0) {
    ref_root(&u, c, root);
    v.root = root;
    view_check(&v, &u, c, what, "first contents, by their root");
    tx = urkel_tx_create(db, root);
    if (tx == NULL)
      mc_fail("no transaction at an old root: error %d", urkel_errno);
    v.tx = tx;
    v.root = NULL;
    view_check(&v, &u, c, what, "first contents, in a transaction at their root");
    urkel_tx_destroy(tx);
  }
  mc_state(mc_hash(mc_hash(ui, c, sizeof(c)), c2, sizeof(c2)));
  urkel_close(db);
}
