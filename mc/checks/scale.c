/* Sizes at which thresholds might lie: many keys in one transaction, many
 * commits in one session.  Built with the shipped limits. */
#include "../ops.h"
#include "../view.h"

struct big {
  int n;
  uint8_t (*key)[32];      /* ascending */
  int32_t *ver;            /* -1 absent */
  int *perm;               /* order of insertion */
  int vlen;
};

static void
big_val(const struct big *b, int i, int ver, uint8_t *v, size_t *len) {
  int j, n = b->vlen ? b->vlen : (i * 37 + ver * 11) % 200;
  *len = n;
  for (j = 0; j < n; j++)
    v[j] = i + j * 7 + ver * 3;
  if (n >= 6) {
    memcpy(v, &i, 4);
    v[4] = ver;
  }
}

static int
by_key(const void *x, const void *y) {
  return memcmp(x, y, 32);
}

static void
big_make(struct big *b, int n, int dist, int vlen) {
  int i;
  b->n = n;
  b->vlen = vlen;
  b->key = calloc(n, 32);
  b->ver = calloc(n, sizeof(*b->ver));
  b->perm = calloc(n, sizeof(int));
  if (!b->key || !b->ver || !b->perm)
    mc_internal("calloc");
  for (i = 0; i < n; i++) {
    uint8_t *k = b->key[i];
    int x = i * 2 + 1;
    memset(k, 0x6b, 32);
    switch (dist) {
      case 0: ref_blake2b(k, 32, NULL, 0, &x, sizeof(x)); break;
      case 1: k[28] = x >> 24; k[29] = x >> 16; k[30] = x >> 8; k[31] = x; break;
      case 2: k[0] = x >> 24; k[1] = x >> 16; k[2] = x >> 8; k[3] = x; break;
      default: k[3] = x % 16; k[20] = x >> 16; k[21] = x >> 8; k[22] = x; break;
    }
  }
  qsort(b->key, n, 32, by_key);
  for (i = 1; i < n; i++)
    if (memcmp(b->key[i - 1], b->key[i], 32) == 0)
      mc_internal("keys collide");
  for (i = 0; i < n; i++) {
    b->ver[i] = -1;
    b->perm[i] = dist % 2 ? i : (int)((i * 7919L) % n);
  }
}

static void
big_free(struct big *b) {
  free(b->key);
  free(b->ver);
  free(b->perm);
}

static void
big_root(const struct big *b, const int32_t *ver, uint8_t *root) {
  struct rec *r = calloc(b->n + 1, sizeof(*r));
  uint8_t *mem = malloc((size_t)b->n * (b->vlen ? b->vlen : 200) + 1024), *p = mem;
  int i, n = 0;
  if (r == NULL || mem == NULL)
    mc_internal("malloc");
  for (i = 0; i < b->n; i++) {
    if (ver[i] < 0)
      continue;
    r[n].key = b->key[i];
    big_val(b, i, ver[i], p, &r[n].len);
    r[n].val = p;
    p += r[n].len;
    n++;
  }
  ref_root_recs(r, n, root);
  free(mem);
  free(r);
}

static void
big_check(const struct big *b, const int32_t *ver, urkel_t *db, urkel_tx_t *tx, const uint8_t *at, const char *when) {
  uint8_t want[32], root[32], v[1024], w[1024], k[32], *proof;
  size_t len, wl, pl;
  int i, ok, ex, stride = b->n / 150 + 1;
  urkel_iter_t *it;
  big_root(b, ver, want);
  if (at != NULL) {
    if (memcmp(at, want, 32) != 0)
      mc_internal("root");
  } else {
    if (tx)
      urkel_tx_root(tx, root);
    else
      urkel_root(db, root);
    if (memcmp(root, want, 32) != 0)
      mc_fail("%s, %d keys: wrong root", when, b->n);
  }
  for (i = 0; i < b->n; i++) {
    memset(v, 0, sizeof(v));
    len = 0;
    ok = tx ? urkel_tx_get(tx, v, &len, b->key[i]) : urkel_get(db, v, &len, b->key[i], at);
    if (ver[i] < 0) {
      if (ok || urkel_errno != URKEL_ENOTFOUND)
        mc_fail("%s, %d keys: get(absent key %d) returned %d, error %d", when, b->n, i, ok, urkel_errno);
      continue;
    }
    if (!ok)
      mc_fail("%s, %d keys: get(key %d) fails with error %d", when, b->n, i, urkel_errno);
    big_val(b, i, ver[i], w, &wl);
    if (len != wl || memcmp(v, w, wl) != 0)
      mc_fail("%s, %d keys: get(key %d) shows another value", when, b->n, i);
  }
  for (i = 0; i < b->n; i += stride) {
    memcpy(k, b->key[i], 32);
    ok = tx ? urkel_tx_prove(tx, &proof, &pl, k) : urkel_prove(db, &proof, &pl, k, at);
    if (!ok)
      mc_fail("%s, %d keys: prove(key %d) fails with error %d", when, b->n, i, urkel_errno);
    if (!urkel_verify(&ex, v, &len, proof, pl, k, want) || ex != (ver[i] >= 0))
      mc_fail("%s, %d keys: the proof of key %d does not say so", when, b->n, i);
    urkel_free(proof);
  }
  it = tx ? urkel_iter_create(tx) : urkel_iterate(db, at);
  if (it == NULL)
    mc_fail("%s, %d keys: no iterator: error %d", when, b->n, urkel_errno);
  for (i = 0; ; i++) {
    while (i < b->n && ver[i] < 0)
      i++;
    ok = urkel_iter_next(it, k, v, &len);
    if (ok != (i < b->n))
      mc_fail("%s, %d keys: iterating returned %d (error %d) at record %d", when, b->n, ok, urkel_errno, i);
    if (!ok)
      break;
    big_val(b, i, ver[i], w, &wl);
    if (memcmp(k, b->key[i], 32) != 0 || len != wl || memcmp(v, w, wl) != 0)
      mc_fail("%s, %d keys: iterating shows another record at %d", when, b->n, i);
  }
  urkel_iter_destroy(it);
}

static void
put(urkel_tx_t *tx, struct big *b, int i, int ver) {
  uint8_t v[1024];
  size_t len;
  big_val(b, i, ver, v, &len);
  if (!urkel_tx_insert(tx, b->key[i], v, len))
    mc_fail("insert of key %d fails with error %d", i, urkel_errno);
  b->ver[i] = ver;
}

static void
tx_done(urkel_tx_t *tx) {
  if (!urkel_tx_commit(tx))
    mc_fail("commit fails with error %d", urkel_errno);
}

static const int ns[] = {1000, 2500, 12000, 66500, 140000};
#define NNS (mc_thorough ? 5 : 4)
static long scale_items(void) { return NNS * 4L * 2; }
static void
scale_run(long item) {
  struct big b;
  int n = ns[NNS - 1 - item / 8], dist = item / 2 % 4, parts = item % 2 ? 9 : 1, i, cut;
  uint8_t r1[32], zero[32] = {0}, got[32];
  int32_t *old;
  urkel_t *db;
  urkel_tx_t *tx;
  if (n > 60000 && !mc_thorough && (dist > 1 || parts > 1))
    mc_prune();
  big_make(&b, n, dist, n > 60000 ? 1023 - dist : 0);
  env_reset();
  env_limits_default();
  fs_mkdir("/w");
  db = must_open("/w/db");
  tx = urkel_tx_create(db, NULL);
  cut = n / parts + 1;
  for (i = 0; i < n; i++) {
    put(tx, &b, b.perm[i], 0);
    if (i % cut == cut - 1)
      tx_done(tx);
  }
  mc_trans(n);
  if (n < 60000 || mc_thorough)
    big_check(&b, b.ver, NULL, tx, NULL, "in the transaction");
  tx_done(tx);
  big_check(&b, b.ver, db, NULL, NULL, "after committing");
  urkel_tx_destroy(tx);
  urkel_root(db, r1);
  urkel_close(db);
  db = must_open("/w/db");
  big_check(&b, b.ver, db, NULL, NULL, "after reopening");
  old = malloc(n * sizeof(*old));
  memcpy(old, b.ver, n * sizeof(*old));
  tx = urkel_tx_create(db, NULL);
  for (i = 0; i < n; i++) {
    int k = b.perm[n - 1 - i];
    if (k % 3 == 0) {
      put(tx, &b, k, 1);
    } else if (k % 2) {
      if (!urkel_tx_remove(tx, b.key[k]))
        mc_fail("remove of key %d fails with error %d", k, urkel_errno);
      b.ver[k] = -1;
    }
  }
  mc_trans(n);
  tx_done(tx);
  urkel_tx_destroy(tx);
  big_check(&b, b.ver, db, NULL, NULL, "after changing");
  big_check(&b, old, db, NULL, r1, "the first root");
  urkel_close(db);
  db = must_open("/w/db");
  big_check(&b, b.ver, db, NULL, NULL, "after changing and reopening");
  if (n < 60000) {
    big_check(&b, old, db, NULL, r1, "the first root after reopening");
    tx = urkel_tx_create(db, NULL);
    for (i = 0; i < n; i++)
      if (b.ver[i] >= 0 && !urkel_tx_remove(tx, b.key[i]))
        mc_fail("remove of key %d fails with error %d", i, urkel_errno);
    tx_done(tx);
    urkel_tx_destroy(tx);
    urkel_root(db, got);
    if (memcmp(got, zero, 32) != 0)
      mc_fail("%d keys, all removed: the root is not empty", n);
    mc_trans(n);
  }
  urkel_close(db);
  free(old);
  big_free(&b);
  check_clean("after closing");
  mc_state(item);
  if (mc_want_sample())
    mc_sample("%d keys, shape %d, %d commits", n, dist, parts);
}
PART(c01_scale, "C01", "c01-scale", scale_items, scale_run,
  "1000, 2500, 12000 and 66500 (thorough: 140000) keys of four shapes (the largest: two) in one transaction with one or nine commits, by the library with its shipped limits (more than the write buffer of 64 MB with values of 1020 to 1023 bytes): what is read, the root, proofs and iteration of the transaction, after committing, reopening, overwriting a third, removing another, at the first root, and emptying",
  {NULL}, FL_STOCK, 600);

/* Many commits in one session. */
static const int hs[] = {64, 65, 257, 1025, 1600, 3000, 8200, 20000, 70000, 140000};
#define NHS (mc_thorough ? 10 : 9)
static long hist_items(void) { return NHS * 3L; }
static void
hist_run(long item) {
  struct big b;
  int n = hs[NHS - 1 - item / 3], how = item % 3, i, j, k, nc = 0;
  uint8_t (*roots)[32], v[1024], w[1024];
  int32_t (*c)[5];
  size_t len, wl;
  urkel_t *db;
  urkel_tx_t *tx = NULL;
  if (n > 20000 && !mc_thorough && how != 2)
    mc_prune();
  roots = calloc(n, 32);
  c = calloc(n, sizeof(*c));
  big_make(&b, 5, 0, 0);
  env_reset();
  env_limits_default();
  fs_mkdir("/w");
  db = must_open("/w/db");
  if (how == 1)
    tx = urkel_tx_create(db, NULL);
  for (i = 0; i < n; i++) {
    k = i % 5;
    if (i >= 5 && i % 11 == 3) {
      if (b.ver[k] >= 0) {
        if (!(tx ? urkel_tx_remove(tx, b.key[k]) : urkel_remove(db, b.key[k])))
          mc_fail("commit %d: remove fails with error %d", i, urkel_errno);
        b.ver[k] = -1;
      }
    } else {
      big_val(&b, k, i, v, &len);
      /* make it unique */
      if (len < 8)
        len = 8;
      memset(v, 0, 8);
      memcpy(v, &i, 4);
      if (!(tx ? urkel_tx_insert(tx, b.key[k], v, len) : urkel_insert(db, b.key[k], v, len)))
        mc_fail("commit %d: insert fails with error %d", i, urkel_errno);
      b.ver[k] = i;
    }
    if (tx)
      tx_done(tx);
    urkel_root(db, roots[i]);
    memcpy(c[i], b.ver, 5 * sizeof(int32_t));
    nc++;
    mc_trans(1);
    if (how == 2 && i == n / 2) {
      urkel_close(db);
      db = must_open("/w/db");
    }
  }
  if (tx)
    urkel_tx_destroy(tx);
  for (j = 0; j < 2; j++) {
    for (i = 0; i < nc; i++) {
      int at = j ? nc - 1 - i : i;
      for (k = 0; k < 5; k++) {
        int ok = urkel_get(db, v, &len, b.key[k], roots[at]);
        if (ok != (c[at][k] >= 0) || (!ok && urkel_errno != URKEL_ENOTFOUND))
          mc_fail("%d commits: get(key %d) at the root of commit %d returned %d, error %d%s", n, k, at, ok, urkel_errno, j ? ", reopened" : "");
        if (!ok)
          continue;
        big_val(&b, k, c[at][k], w, &wl);
        if (wl < 8)
          wl = 8;
        memset(w, 0, 8);
        {
          int id = c[at][k];
          memcpy(w, &id, 4);
        }
        if (len != wl || memcmp(v, w, wl) != 0)
          mc_fail("%d commits: get(key %d) at the root of commit %d shows another value", n, k, at);
      }
    }
    /* and back to an old one */
    if (!urkel_inject(db, roots[n / 3]))
      mc_fail("%d commits: going back to commit %d fails with error %d", n, n / 3, urkel_errno);
    urkel_root(db, v);
    if (memcmp(v, roots[n / 3], 32) != 0)
      mc_fail("%d commits: going back to commit %d shows another root", n, n / 3);
    urkel_close(db);
    db = must_open("/w/db");
  }
  urkel_close(db);
  big_free(&b);
  free(roots);
  free(c);
  check_clean("after closing");
  mc_state(item);
}
PART(c05_scale, "C05", "c05-scale", hist_items, hist_run,
  "sessions of 64 to 70000 (thorough: 140000) commits, direct, through one transaction, and reopened halfway, by the library with its shipped limits: every root read, oldest first before and newest first after reopening",
  {NULL}, FL_STOCK, 600);
