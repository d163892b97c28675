/* view.c - see view.h */
#include "view.h"

static __thread uint8_t *exact;  /* exactly 1023 bytes: overruns are caught */

static uint8_t *
exact_buf(void) {
  if (exact == NULL)
    exact = malloc(1023);
  memset(exact, 0xd7, 1023);
  return exact;
}

urkel_t *
must_open(const char *path) {
  urkel_t *db = urkel_open(path);
  if (db == NULL)
    mc_fail("open fails with error %d", urkel_errno);
  return db;
}

void
must_insert(urkel_tx_t *tx, const struct universe *u, int k, int v) {
  if (!urkel_tx_insert(tx, u->key[k], u->val[v], u->len[v]))
    mc_fail("insert of key %d (%d bytes) fails with error %d", k, u->len[v], urkel_errno);
}

static int
v_get(const struct view *v, uint8_t *buf, size_t *len, const uint8_t *key) {
  return v->tx ? urkel_tx_get(v->tx, buf, len, key) : urkel_get(v->db, buf, len, key, v->root);
}

static int
v_has(const struct view *v, const uint8_t *key) {
  return v->tx ? urkel_tx_has(v->tx, key) : urkel_has(v->db, key, v->root);
}

static int
v_prove(const struct view *v, uint8_t **raw, size_t *len, const uint8_t *key) {
  return v->tx ? urkel_tx_prove(v->tx, raw, len, key) : urkel_prove(v->db, raw, len, key, v->root);
}

/* val NULL: absent */
static void
key_check(const struct view *v, const struct rec *r, int nr, const uint8_t *root,
          const uint8_t *key, int k, const uint8_t *val, size_t vlen, int what, const char *when) {
  uint8_t *buf;
  size_t len = 7777;
  int ok;
  if (what & VW_GET) {
    buf = exact_buf();
    urkel_errno = 0;
    ok = v_get(v, buf, &len, key);
    if (val == NULL) {
      if (ok)
        mc_fail("%s: get of absent key %d succeeds", when, k);
      if (urkel_errno != URKEL_ENOTFOUND)
        mc_fail("%s: get of absent key %d gives error %d", when, k, urkel_errno);
    } else {
      if (!ok)
        mc_fail("%s: get of present key %d fails with error %d", when, k, urkel_errno);
      if (len != vlen)
        mc_fail("%s: get of key %d gives %zu bytes, stored were %zu", when, k, len, vlen);
      if (len > 0 && memcmp(buf, val, len) != 0)
        mc_fail("%s: get of key %d gives a wrong value", when, k);
    }
  }
  if (what & VW_HAS) {
    urkel_errno = 0;
    ok = v_has(v, key);
    if (ok != (val != NULL))
      mc_fail("%s: has of key %d gives %d", when, k, ok);
    if (!ok && urkel_errno != URKEL_ENOTFOUND)
      mc_fail("%s: has of absent key %d gives error %d", when, k, urkel_errno);
  }
  if (what & VW_PROVE) {
    uint8_t *raw = NULL, got[32], *copy;
    static __thread uint8_t pv[1024];
    size_t n = 0, plen = 0;
    int ex = 5, e;
    if (!v_prove(v, &raw, &n, key))
      mc_fail("%s: prove of key %d fails with error %d", when, k, urkel_errno);
    copy = malloc(n > 0 ? n : 1);
    memcpy(copy, raw, n);
    urkel_free(raw);
    e = proof_eval(copy, n, key, got, &ex, pv, &plen);
    if (e != 0)
      mc_fail("%s: the proof of key %d is malformed (%d)", when, k, e);
    if (memcmp(got, root, 32) != 0)
      mc_fail("%s: the proof of key %d does not lead to the root", when, k);
    if (ex != (val != NULL))
      mc_fail("%s: the proof of key %d says %s", when, k, ex ? "present" : "absent");
    if (val && (plen != vlen || memcmp(pv, val, vlen) != 0))
      mc_fail("%s: the proof of key %d holds a wrong value", when, k);
    buf = exact_buf();
    ex = 5;
    len = 7777;
    if (!urkel_verify(&ex, buf, &len, copy, n, key, root))
      mc_fail("%s: the proof of key %d does not verify: error %d", when, k, urkel_errno);
    if (ex != (val != NULL))
      mc_fail("%s: verifying the proof of key %d says %d", when, k, ex);
    if (val && (len != vlen || (len > 0 && memcmp(buf, val, len) != 0)))
      mc_fail("%s: verifying the proof of key %d gives a wrong value", when, k);
    if (what & VW_BYTES) {
      static __thread uint8_t want[1 << 16];
      size_t w = ref_prove(r, nr, key, want);
      if (w != n || memcmp(want, copy, n) != 0)
        mc_fail("%s: the proof of key %d (%zu bytes) is not the documented one (%zu bytes)", when, k, n, w);
    }
    free(copy);
  }
}

void
view_check(const struct view *v, const struct universe *u, const int8_t *c,
           int what, const char *when) {
  struct rec r[MAXK];
  int nr = ref_recs(u, c, r), k, i;
  uint8_t root[32], got[32];
  ref_root(u, c, root);
  if ((what & VW_ROOT) && v->root == NULL) {
    memset(got, 0x33, 32);
    if (v->tx)
      urkel_tx_root(v->tx, got);
    else
      urkel_root(v->db, got);
    if (memcmp(got, root, 32) != 0)
      mc_fail("%s: the root is not that of the contents (%d records)", when, nr);
  }
  if (what & (VW_MAP | VW_PROVE))
    for (k = 0; k < u->nk; k++)
      key_check(v, r, nr, root, u->key[k], k, c[k] < 0 ? NULL : u->val[c[k]],
                c[k] < 0 ? 0 : u->len[c[k]], what, when);
  if (what & VW_ITER) {
    urkel_iter_t *it = v->tx ? urkel_iter_create(v->tx) : urkel_iterate(v->db, v->root);
    uint8_t key[32], *buf = exact_buf();
    size_t len;
    if (it == NULL)
      mc_fail("%s: iterating fails with error %d", when, urkel_errno);
    for (i = 0; i < nr; i++) {
      len = 7777;
      if (!urkel_iter_next(it, key, buf, &len))
        mc_fail("%s: iteration ends with error %d after %d of %d records", when, urkel_errno, i, nr);
      if (memcmp(key, r[i].key, 32) != 0)
        mc_fail("%s: iteration returns a wrong key at place %d of %d", when, i, nr);
      if (len != r[i].len || (len > 0 && memcmp(buf, r[i].val, len) != 0))
        mc_fail("%s: iteration returns a wrong value at place %d of %d", when, i, nr);
    }
    for (i = 0; i < 2; i++)
      if (urkel_iter_next(it, key, buf, &len) || urkel_errno != URKEL_EITEREND)
        mc_fail("%s: iteration does not end after %d records", when, nr);
    urkel_iter_destroy(it);
  }
}

void
view_absent(const struct view *v, const struct universe *u, const int8_t *c,
            const uint8_t *key, int what, const char *when) {
  struct rec r[MAXK];
  int nr = ref_recs(u, c, r);
  uint8_t root[32];
  ref_root(u, c, root);
  key_check(v, r, nr, root, key, -1, NULL, 0, what, when);
}
