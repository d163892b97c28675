/* ops.c - see ops.h */
#include "ops.h"

struct real R[4];
const char *db_path = "/w/db";

/* ------------------------------------------------------------------ */
/* Universes                                                            */
/* ------------------------------------------------------------------ */

/* Keys are base ^ (subset of the flip bits given by the mask). */
struct ou { const char *name; int base; int flip[4]; int mask[8]; int len[4]; };

static const struct ou ous[] = {
  {"comb-top", 0, {0, 1, 2, 3}, {0, 1, 2, 4, 8, 3, 5, 6}, {4, 0, 33, 1023}},
  {"square-0-255", 1, {0, 255, 9, 100}, {0, 1, 2, 3, 4, 8, 5, 10}, {255, 256, 1, 0}},
  {"byte-edge", 2, {7, 8, 15, 16}, {0, 1, 2, 4, 8, 3, 6, 12}, {0, 1, 512, 300}},
  {"deep-comb", 0, {252, 253, 254, 255}, {0, 1, 2, 4, 8, 3, 5, 9}, {1023, 1022, 17, 511}},
  {"square-127-128", 2, {127, 128, 129, 126}, {0, 1, 2, 3, 4, 8, 5, 7}, {511, 512, 0, 2}},
  {"square-254-255", 1, {254, 255, 0, 3}, {0, 1, 2, 3, 4, 8, 6, 5}, {257, 1, 640, 768}},
  {"spread", 0, {3, 64, 192, 250}, {0, 1, 2, 4, 8, 15, 9, 6}, {32, 900, 767, 1}},
  {"square-8-200", 2, {8, 200, 130, 2}, {0, 1, 2, 3, 4, 8, 12, 7}, {1, 2, 3, 4}},
};

int ou_count(void) { return ARRAY_SIZE(ous); }
const char *ou_name(int id) { return ous[id].name; }

void
ou_make(struct universe *u, int id, int nk, int nv) {
  const struct ou *o = &ous[id];
  uint8_t base[32], k[32];
  int i, j;
  uni_init(u);
  for (i = 0; i < 32; i++)
    base[i] = o->base == 0 ? (i * 73 + 41) ^ (i << 3) : o->base == 1 ? 0 : 255;
  for (i = 0; i < nk; i++) {
    memcpy(k, base, 32);
    for (j = 0; j < 4; j++)
      if (o->mask[i] >> j & 1)
        k[o->flip[j] / 8] ^= 0x80 >> (o->flip[j] % 8);
    uni_key(u, k);
  }
  for (i = 0; i < nv; i++)
    uni_val(u, o->len[i], i + 1);
  uni_done(u);
}

/* The same keys with two short values, which fit into the smallest files. */
void
ou_small(struct universe *u, int id, int nk) {
  struct universe t;
  int i;
  ou_make(&t, id, nk, 1);
  uni_init(u);
  for (i = 0; i < nk; i++)
    uni_key(u, t.key[i]);
  uni_val(u, 4, 1);
  uni_val(u, 45, 2);
  uni_done(u);
}

/* ------------------------------------------------------------------ */
/* Model                                                                */
/* ------------------------------------------------------------------ */

void
model_init(struct model *m, const struct universe *u) {
  memset(m, 0, sizeof(*m));
  m->u = u;
  memset(&m->disk, -1, sizeof(m->disk));
  memset(&m->cur, -1, sizeof(m->cur));
}

static int
oc_empty(const oc *c, int nk) {
  int i;
  for (i = 0; i < nk; i++)
    if (c->c[i] >= 0)
      return 0;
  return 1;
}

int
model_known(const struct model *m, const oc *c) {
  int i;
  if (oc_empty(c, m->u->nk))
    return 1;
  for (i = 0; i < m->nhist; i++)
    if (memcmp(&m->hist[i], c, sizeof(*c)) == 0)
      return 1;
  return 0;
}

int
model_hist_add(struct model *m, const oc *c) {
  if (model_known(m, c))
    return 0;
  if (m->nhist == OPH)
    mc_internal("model: history full");
  m->hist[m->nhist++] = *c;
  return 1;
}

uint64_t
model_hash(const struct model *m) {
  uint64_t h = mc_hash(m->open, &m->disk, sizeof(m->disk));
  uint64_t s = 0;
  int i;
  h = mc_hash(h, &m->cur, sizeof(m->cur));
  for (i = 0; i < OPTX; i++)
    if (m->tx[i].live)
      h = mc_hash(h + i, &m->tx[i].c, sizeof(oc));
  for (i = 0; i < m->nhist; i++)
    s += mc_hash(5, &m->hist[i], sizeof(oc));
  h ^= s;
  return mc_hash(h, m->u->key, sizeof(m->u->key[0]) * 2);
}

static int
hist_get(const struct model *m, int hist, oc *c) {
  if (hist == H_CUR)
    *c = m->cur;
  else if (hist == H_ZERO)
    memset(c, -1, sizeof(*c));
  else if (hist > 0 && hist <= m->nhist)
    *c = m->hist[hist - 1];
  else
    return 0;
  return 1;
}

void
hist_root(const struct model *m, int hist, uint8_t *root) {
  oc c;
  if (hist == H_UNKNOWN) {
    memset(root, 0xa7, 32);
    return;
  }
  if (!hist_get(m, hist, &c))
    mc_internal("hist_root");
  ref_root(m->u, c.c, root);
}

static void
fail(struct obs *e, int err) {
  e->ret = 0;
  e->err = err;
}

static void
m_get(const oc *c, const struct op *o, struct obs *e) {
  if (c->c[o->key] < 0) {
    fail(e, URKEL_ENOTFOUND);
    return;
  }
  e->ret = 1;
  if (o->kind == OP_TXGET || o->kind == OP_GET)
    e->val = c->c[o->key];
}

static void
m_prove(const struct model *m, const oc *c, const struct op *o, struct obs *e) {
  e->ret = 1;
  e->val = c->c[o->key];
  e->hasroot = 1;
  ref_root(m->u, c->c, e->root);
}

static void
m_commit(struct model *m, const oc *c) {
  m->disk = *c;
  m->cur = *c;
  model_hist_add(m, c);
}

static int
m_write(const struct model *m, oc *c, const struct op *o, int ins, struct obs *e) {
  if (ins) {
    if (m->u->len[o->val] > 1023) {
      fail(e, URKEL_EINVAL);
      return 0;
    }
    c->c[o->key] = o->val;
  } else {
    if (c->c[o->key] < 0) {
      fail(e, URKEL_ENOTFOUND);
      return 0;
    }
    c->c[o->key] = -1;
  }
  e->ret = 1;
  return 1;
}

void
model_step(struct model *m, const struct op *o, struct obs *e) {
  oc c;
  memset(e, 0, sizeof(*e));
  e->val = -1;
  memset(&e->c, -1, sizeof(e->c));
  switch (o->kind) {
    case OP_TXNEW:
    case OP_TXINJ:
      if (!hist_get(m, o->hist, &c)) {
        fail(e, URKEL_ENOTFOUND);
        break;
      }
      m->tx[o->tx].live = 1;
      m->tx[o->tx].c = c;
      e->ret = 1;
      break;
    case OP_TXFREE:
      m->tx[o->tx].live = 0;
      memset(&m->tx[o->tx].c, 0, sizeof(oc));
      e->ret = 1;
      break;
    case OP_TXINS:
    case OP_TXREM:
      m_write(m, &m->tx[o->tx].c, o, o->kind == OP_TXINS, e);
      break;
    case OP_TXGET:
    case OP_TXHAS:
      m_get(&m->tx[o->tx].c, o, e);
      break;
    case OP_TXPROVE:
      m_prove(m, &m->tx[o->tx].c, o, e);
      break;
    case OP_TXROOT:
      e->ret = 1;
      e->hasroot = 1;
      ref_root(m->u, m->tx[o->tx].c.c, e->root);
      break;
    case OP_TXITER:
      e->ret = 1;
      e->hascont = 1;
      e->c = m->tx[o->tx].c;
      break;
    case OP_TXCLEAR:
      m->tx[o->tx].c = m->cur;
      e->ret = 1;
      break;
    case OP_TXCOMMIT:
      c = m->tx[o->tx].c;
      m_commit(m, &c);
      e->ret = 1;
      break;
    case OP_INS:
    case OP_REM:
      c = m->cur;
      if (m_write(m, &c, o, o->kind == OP_INS, e))
        m_commit(m, &c);
      break;
    case OP_GET:
    case OP_HAS:
      if (!hist_get(m, o->hist, &c))
        fail(e, URKEL_ENOTFOUND);
      else
        m_get(&c, o, e);
      break;
    case OP_PROVE:
      if (!hist_get(m, o->hist, &c))
        fail(e, URKEL_ENOTFOUND);
      else
        m_prove(m, &c, o, e);
      break;
    case OP_ITER:
      if (!hist_get(m, o->hist, &c)) {
        fail(e, URKEL_ENOTFOUND);
      } else {
        e->ret = 1;
        e->hascont = 1;
        e->c = c;
      }
      break;
    case OP_ROOT:
      e->ret = 1;
      e->hasroot = 1;
      ref_root(m->u, m->cur.c, e->root);
      break;
    case OP_INJ:
      if (!hist_get(m, o->hist, &c)) {
        fail(e, URKEL_ENOTFOUND);
      } else {
        m->cur = c;
        e->ret = 1;
      }
      break;
    case OP_REOPEN:
    case OP_OPEN:
    case OP_CLOSE:
      if (o->kind == OP_OPEN && m->open) {
        fail(e, URKEL_EBADOPEN);
        break;
      }
      memset(m->tx, 0, sizeof(m->tx));
      m->cur = m->disk;
      m->open = o->kind != OP_CLOSE;
      if (m->open)
        m->there = 1;
      e->ret = 1;
      break;
    case OP_DESTROY:
      if (m->open || !m->there) {
        fail(e, URKEL_EBADOPEN);
        break;
      }
      model_init(m, m->u);
      e->ret = 1;
      break;
    default:
      mc_internal("model_step: %d", o->kind);
  }
}

/* ------------------------------------------------------------------ */
/* Enabled operations                                                   */
/* ------------------------------------------------------------------ */

#define ADD(K, T, KEY, V, H) do { \
    if (n >= max) mc_internal("too many operations"); \
    out[n].kind = (K); out[n].tx = (T); out[n].key = (KEY); out[n].val = (V); \
    out[n].hist = (H); n += 1; } while (0)

int
ops_enabled(const struct model *m, uint32_t mask, int ntx, int nk, int nv,
            struct op *out, int max) {
  int n = 0, t, k, v, h;
  if (mask & A(OP_OPEN)) {
    if (!m->open) {
      ADD(OP_OPEN, 0, 0, 0, 0);
      if (mask & A(OP_DESTROY))
        ADD(OP_DESTROY, 0, 0, 0, 0);
      return n;
    }
    if (mask & A(OP_CLOSE))
      ADD(OP_CLOSE, 0, 0, 0, 0);
  }
  for (t = 0; t < ntx; t++) {
    if (!m->tx[t].live) {
      if (mask & A(OP_TXNEW))
        for (h = H_CUR; h <= m->nhist; h++)
          ADD(OP_TXNEW, t, 0, 0, h);
      /* Transactions are interchangeable: fill them in order. */
      break;
    }
    for (k = 0; k < nk; k++) {
      if (mask & A(OP_TXINS))
        for (v = 0; v < nv; v++)
          ADD(OP_TXINS, t, k, v, 0);
      if (mask & A(OP_TXREM))
        ADD(OP_TXREM, t, k, 0, 0);
      if (mask & A(OP_TXGET))
        ADD(OP_TXGET, t, k, 0, 0);
      if (mask & A(OP_TXHAS))
        ADD(OP_TXHAS, t, k, 0, 0);
      if (mask & A(OP_TXPROVE))
        ADD(OP_TXPROVE, t, k, 0, 0);
    }
    if (mask & A(OP_TXROOT))
      ADD(OP_TXROOT, t, 0, 0, 0);
    if (mask & A(OP_TXITER))
      ADD(OP_TXITER, t, 0, 0, 0);
    if (mask & A(OP_TXCLEAR))
      ADD(OP_TXCLEAR, t, 0, 0, 0);
    if (mask & A(OP_TXCOMMIT))
      ADD(OP_TXCOMMIT, t, 0, 0, 0);
    if (mask & A(OP_TXFREE))
      ADD(OP_TXFREE, t, 0, 0, 0);
    if (mask & A(OP_TXINJ))
      for (h = H_UNKNOWN; h <= m->nhist; h++)
        ADD(OP_TXINJ, t, 0, 0, h);
  }
  for (k = 0; k < nk; k++) {
    if (mask & A(OP_INS))
      for (v = 0; v < nv; v++)
        ADD(OP_INS, 0, k, v, 0);
    if (mask & A(OP_REM))
      ADD(OP_REM, 0, k, 0, 0);
    for (h = H_CUR; h <= m->nhist; h++) {
      if (mask & A(OP_GET))
        ADD(OP_GET, 0, k, 0, h);
      if (mask & A(OP_HAS))
        ADD(OP_HAS, 0, k, 0, h);
      if (mask & A(OP_PROVE))
        ADD(OP_PROVE, 0, k, 0, h);
    }
  }
  if (mask & A(OP_ITER))
    for (h = H_CUR; h <= m->nhist; h++)
      ADD(OP_ITER, 0, 0, 0, h);
  if (mask & A(OP_ROOT))
    ADD(OP_ROOT, 0, 0, 0, 0);
  if (mask & A(OP_INJ))
    for (h = H_UNKNOWN; h <= m->nhist; h++)
      ADD(OP_INJ, 0, 0, 0, h);
  if (mask & A(OP_REOPEN))
    ADD(OP_REOPEN, 0, 0, 0, 0);
  return n;
}

static const char *const kname[OP_N] = {
  "none", "tx_create", "tx_destroy", "tx_insert", "tx_remove", "tx_get",
  "tx_has", "tx_prove", "tx_root", "tx_iterate", "tx_clear", "tx_inject",
  "tx_commit", "insert", "remove", "get", "has", "prove", "iterate", "root",
  "inject", "reopen", "open", "close", "destroy"
};

static void
cont_str(const struct universe *u, const oc *c, char *b, size_t n) {
  size_t o = 0;
  int i;
  o += snprintf(b, n, "{");
  for (i = 0; i < u->nk && o + 12 < n; i++)
    if (c->c[i] >= 0)
      o += snprintf(b + o, n - o, "%sk%d=v%d", o > 1 ? "," : "", i, c->c[i]);
  snprintf(b + o, n - o, "}");
}

void
op_str(const struct model *m, const struct op *o, char *b, size_t n) {
  char h[160] = "";
  if (o->hist == H_UNKNOWN)
    snprintf(h, sizeof(h), "@unknown");
  else if (o->hist == H_ZERO)
    snprintf(h, sizeof(h), "@zero");
  else if (o->hist > 0 && o->hist <= m->nhist)
    cont_str(m->u, &m->hist[o->hist - 1], h, sizeof(h));
  switch (o->kind) {
    case OP_TXNEW: case OP_TXINJ:
      snprintf(b, n, "t%d=%s(%s)", o->tx, kname[o->kind], h);
      break;
    case OP_TXINS:
      snprintf(b, n, "%s(t%d,k%d,v%d[%d])", kname[o->kind], o->tx, o->key, o->val, m->u->len[o->val]);
      break;
    case OP_TXREM: case OP_TXGET: case OP_TXHAS: case OP_TXPROVE:
      snprintf(b, n, "%s(t%d,k%d)", kname[o->kind], o->tx, o->key);
      break;
    case OP_TXROOT: case OP_TXITER: case OP_TXCLEAR: case OP_TXCOMMIT: case OP_TXFREE:
      snprintf(b, n, "%s(t%d)", kname[o->kind], o->tx);
      break;
    case OP_INS:
      snprintf(b, n, "insert(k%d,v%d[%d])", o->key, o->val, m->u->len[o->val]);
      break;
    case OP_REM:
      snprintf(b, n, "remove(k%d)", o->key);
      break;
    case OP_GET: case OP_HAS: case OP_PROVE:
      snprintf(b, n, "%s(k%d%s)", kname[o->kind], o->key, h);
      break;
    default:
      snprintf(b, n, "%s(%s)", kname[o->kind], h);
      break;
  }
}

int
obs_eq(const struct obs *a, const struct obs *b) {
  if (a->ret != b->ret || a->err != b->err || a->val != b->val)
    return 0;
  if (a->hasroot != b->hasroot || a->hascont != b->hascont)
    return 0;
  if (a->hasroot && memcmp(a->root, b->root, 32) != 0)
    return 0;
  if (a->hascont && memcmp(&a->c, &b->c, sizeof(a->c)) != 0)
    return 0;
  return 1;
}

void
obs_str(const struct obs *o, char *b, size_t n) {
  size_t k = snprintf(b, n, "%s", o->ret ? "ok" : "fail");
  int i;
  if (!o->ret)
    k += snprintf(b + k, n - k, " errno=%d", o->err);
  if (o->val != -1)
    k += snprintf(b + k, n - k, " value=%s%d", o->val == -2 ? "WRONG" : "v", o->val);
  if (o->hasroot)
    k += snprintf(b + k, n - k, " root=%02x%02x%02x%02x", o->root[0], o->root[1], o->root[2], o->root[3]);
  if (o->hascont) {
    k += snprintf(b + k, n - k, " {");
    for (i = 0; i < OPK && k + 12 < n; i++)
      if (o->c.c[i] >= 0)
        k += snprintf(b + k, n - k, " k%d=v%d", i, o->c.c[i]);
    snprintf(b + k, n - k, " }");
  }
}

/* ------------------------------------------------------------------ */
/* Real side                                                            */
/* ------------------------------------------------------------------ */

static int
val_index(const struct universe *u, const uint8_t *val, size_t len) {
  int i;
  for (i = 0; i < u->nv; i++)
    if (u->len[i] == len && (len == 0 || memcmp(u->val[i], val, len) == 0))
      return i;
  return -2;
}

static int
key_index(const struct universe *u, const uint8_t *key) {
  int i;
  for (i = 0; i < u->nk; i++)
    if (memcmp(u->key[i], key, 32) == 0)
      return i;
  return -1;
}

#define CANARY 0x5c
#define GUARD 16
static __thread uint8_t outbuf[OUTCAP + GUARD];

static void
arm(void) {
  memset(outbuf, CANARY, sizeof(outbuf));
}

static void
guard(const char *what) {
  int i;
  for (i = 0; i < GUARD; i++)
    if (outbuf[OUTCAP + i] != CANARY)
      mc_fail("%s wrote beyond the maximum value size", what);
}

static void
iter_all(urkel_iter_t *it, const struct universe *u, struct obs *e) {
  uint8_t key[32], last[32];
  size_t len;
  int n = 0, k, i;
  memset(&e->c, -1, sizeof(e->c));
  e->hascont = 1;
  e->ret = 1;
  for (;;) {
    arm();
    len = 7777;
    if (!urkel_iter_next(it, key, outbuf, &len)) {
      e->err = urkel_errno;
      if (e->err != URKEL_EITEREND) {
        e->ret = 0;
        e->hascont = 0;
        return;
      }
      break;
    }
    guard("iter_next");
    if (n > 0 && memcmp(last, key, 32) >= 0)
      mc_fail("iteration is out of order or repeats a key");
    memcpy(last, key, 32);
    k = key_index(u, key);
    if (k < 0)
      mc_fail("iteration returned a key that was never inserted");
    if (len > OUTCAP)
      mc_fail("iteration returned a value of %zu bytes", len);
    i = val_index(u, outbuf, len);
    if (i < 0)
      mc_fail("iteration returned a wrong value (%zu bytes) for key k%d", len, k);
    e->c.c[k] = i;
    if (++n > u->nk)
      mc_fail("iteration returned more records than there are keys");
  }
  e->err = 0;
  if (urkel_iter_next(it, key, NULL, NULL) || urkel_errno != URKEL_EITEREND)
    mc_fail("iteration does not stay at its end");
}

static void
do_prove(urkel_t *db, urkel_tx_t *tx, const struct universe *u, const struct op *o,
         const uint8_t *root, struct obs *e) {
  uint8_t *raw = (uint8_t *)1;
  size_t len = 4242, vlen, vlen2;
  int ok, exists, ex2;
  static __thread uint8_t val[OUTCAP + 1];
  if (tx)
    ok = urkel_tx_prove(tx, &raw, &len, u->key[o->key]);
  else
    ok = urkel_prove(db, &raw, &len, u->key[o->key], root);
  if (!ok) {
    fail(e, urkel_errno);
    if (raw != NULL || len != 0)
      mc_fail("a failed prove left its outputs set");
    return;
  }
  e->ret = 1;
  e->hasroot = 1;
  if (proof_eval(raw, len, u->key[o->key], e->root, &exists, val, &vlen) != 0)
    mc_fail("a produced proof is malformed");
  e->val = exists ? val_index(u, val, vlen) : -1;
  arm();
  ex2 = 99;
  if (!urkel_verify(&ex2, outbuf, &vlen2, raw, len, u->key[o->key], e->root))
    mc_fail("a produced proof does not verify: error %d", urkel_errno);
  guard("verify");
  if (ex2 != exists || vlen2 != vlen || (exists && memcmp(val, outbuf, vlen) != 0))
    mc_fail("verification of a produced proof gives another answer than the proof holds");
  urkel_free(raw);
}

static void
free_txs(struct real *r) {
  int i;
  for (i = 0; i < OPTX; i++) {
    if (r->tx[i])
      urkel_tx_destroy(r->tx[i]);
    r->tx[i] = NULL;
  }
}

void
real_close(struct real *r) {
  free_txs(r);
  if (r->db)
    urkel_close(r->db);
  r->db = NULL;
}

void
real_step(struct real *r, const struct model *m, const struct op *o, struct obs *e) {
  const struct universe *u = m->u;
  uint8_t root[32];
  const uint8_t *rp = NULL;
  size_t len = 7777;
  urkel_tx_t *tx = r->tx[o->tx];
  int ok = 0;

  memset(e, 0, sizeof(*e));
  e->val = -1;
  memset(&e->c, -1, sizeof(e->c));
  switch (o->kind) {
    case OP_TXNEW: case OP_TXINJ: case OP_GET: case OP_HAS: case OP_PROVE:
    case OP_ITER: case OP_INJ:
      if (o->hist != H_CUR) {
        hist_root(m, o->hist, root);
        rp = root;
      }
      break;
    default:
      break;
  }
  urkel_errno = 0;
  switch (o->kind) {
    case OP_TXNEW:
      r->tx[o->tx] = urkel_tx_create(r->db, rp);
      ok = r->tx[o->tx] != NULL;
      break;
    case OP_TXFREE:
      urkel_tx_destroy(tx);
      r->tx[o->tx] = NULL;
      ok = 1;
      break;
    case OP_TXINS:
      ok = urkel_tx_insert(tx, u->key[o->key], u->val[o->val], u->len[o->val]);
      break;
    case OP_TXREM:
      ok = urkel_tx_remove(tx, u->key[o->key]);
      break;
    case OP_TXGET:
    case OP_GET:
      arm();
      ok = tx && o->kind == OP_TXGET
         ? urkel_tx_get(tx, outbuf, &len, u->key[o->key])
         : urkel_get(r->db, outbuf, &len, u->key[o->key], rp);
      guard("get");
      if (ok) {
        if (len > OUTCAP)
          mc_fail("get reports a value of %zu bytes", len);
        e->val = val_index(u, outbuf, len);
      } else if (len != 0) {
        mc_fail("a failed get reports %zu bytes", len);
      }
      break;
    case OP_TXHAS:
      ok = urkel_tx_has(tx, u->key[o->key]);
      break;
    case OP_HAS:
      ok = urkel_has(r->db, u->key[o->key], rp);
      break;
    case OP_TXPROVE:
      do_prove(NULL, tx, u, o, NULL, e);
      return;
    case OP_PROVE:
      do_prove(r->db, NULL, u, o, rp, e);
      return;
    case OP_TXROOT:
      urkel_tx_root(tx, e->root);
      e->hasroot = 1;
      ok = 1;
      break;
    case OP_ROOT:
      urkel_root(r->db, e->root);
      e->hasroot = 1;
      ok = 1;
      break;
    case OP_TXITER:
    case OP_ITER: {
      urkel_iter_t *it = o->kind == OP_TXITER ? urkel_iter_create(tx) : urkel_iterate(r->db, rp);
      if (it == NULL) {
        ok = 0;
        break;
      }
      iter_all(it, u, e);
      urkel_iter_destroy(it);
      return;
    }
    case OP_TXCLEAR:
      urkel_tx_clear(tx);
      ok = 1;
      break;
    case OP_TXINJ:
      ok = urkel_tx_inject(tx, rp);
      break;
    case OP_TXCOMMIT:
      ok = urkel_tx_commit(tx);
      break;
    case OP_INS:
      ok = urkel_insert(r->db, u->key[o->key], u->val[o->val], u->len[o->val]);
      break;
    case OP_REM:
      ok = urkel_remove(r->db, u->key[o->key]);
      break;
    case OP_INJ:
      ok = urkel_inject(r->db, rp);
      break;
    case OP_REOPEN:
      real_close(r);
      r->db = urkel_open(db_path);
      ok = r->db != NULL;
      break;
    case OP_OPEN: {
      urkel_t *db = urkel_open(db_path);
      ok = db != NULL;
      if (ok)
        r->db = db;
      break;
    }
    case OP_CLOSE:
      real_close(r);
      ok = 1;
      break;
    case OP_DESTROY:
      ok = urkel_destroy(db_path);
      break;
    default:
      mc_internal("real_step %d", o->kind);
  }
  if (ok != 0 && ok != 1)
    mc_fail("%s returned %d", kname[o->kind], ok);
  e->ret = ok;
  if (!ok) {
    e->err = urkel_errno;
    e->val = -1;
  }
}

void
step(struct real *r, struct model *m, const struct op *o) {
  struct obs want, got;
  struct model before;
  char a[300], b[300], c[300];
  if (mc_verbose) {
    op_str(m, o, a, sizeof(a));
    mc_trace("  %s", a);
  }
  before = *m;
  real_step(r, &before, o, &got);
  model_step(m, o, &want);
  if (!obs_eq(&want, &got)) {
    op_str(&before, o, a, sizeof(a));
    obs_str(&want, b, sizeof(b));
    obs_str(&got, c, sizeof(c));
    mc_fail("%s: expected %s, got %s", a, b, c);
  }
}

static void
obs_one(struct real *r, const struct model *m, struct op *o) {
  struct obs want, got;
  char a[300], b[300], c[300];
  struct model t = *m;
  real_step(r, m, o, &got);
  model_step(&t, o, &want);
  if (!obs_eq(&want, &got)) {
    op_str(m, o, a, sizeof(a));
    obs_str(&want, b, sizeof(b));
    obs_str(&got, c, sizeof(c));
    mc_fail("afterwards, %s: expected %s, got %s", a, b, c);
  }
}

void
observe(struct real *r, const struct model *m, int what) {
  struct op o;
  int k, h, t;
  memset(&o, 0, sizeof(o));
  if (what & OBS_ROOTS) {
    o.kind = OP_ROOT;
    obs_one(r, m, &o);
    for (t = 0; t < OPTX; t++)
      if (m->tx[t].live) {
        o.tx = t;
        o.kind = OP_TXROOT;
        obs_one(r, m, &o);
      }
    o.tx = 0;
  }
  if (what & OBS_DB) {
    o.hist = H_CUR;
    o.kind = OP_ROOT;
    obs_one(r, m, &o);
    for (h = H_CUR; h <= m->nhist; h++) {
      if (h > H_CUR && !(what & OBS_HIST))
        break;
      o.hist = h;
      for (k = 0; k < m->u->nk; k++) {
        o.key = k;
        o.kind = OP_GET;
        obs_one(r, m, &o);
        if (h == H_CUR) {
          o.kind = OP_HAS;
          obs_one(r, m, &o);
        }
        if (what & OBS_PROOF) {
          o.kind = OP_PROVE;
          obs_one(r, m, &o);
        }
      }
      if (what & OBS_ITER) {
        o.kind = OP_ITER;
        obs_one(r, m, &o);
      }
    }
  }
  if (what & OBS_TX) {
    for (t = 0; t < OPTX; t++) {
      if (!m->tx[t].live)
        continue;
      o.tx = t;
      for (k = 0; k < m->u->nk; k++) {
        o.key = k;
        o.kind = OP_TXGET;
        obs_one(r, m, &o);
        o.kind = OP_TXHAS;
        obs_one(r, m, &o);
        if (what & OBS_PROOF) {
          o.kind = OP_TXPROVE;
          obs_one(r, m, &o);
        }
      }
      if (what & OBS_ITER) {
        o.kind = OP_TXITER;
        obs_one(r, m, &o);
      }
      o.kind = OP_TXROOT;
      obs_one(r, m, &o);
    }
  }
}

static int
commit_cont(const struct universe *u, const struct rd_commit *rc, oc *c) {
  int i, k, v;
  memset(c, -1, sizeof(*c));
  for (i = 0; i < rc->nrec; i++) {
    k = key_index(u, rc->rec[i].key);
    v = val_index(u, rc->rec[i].val, rc->rec[i].len);
    if (k < 0 || v < 0)
      return 0;
    c->c[k] = v;
  }
  return 1;
}

void
observe_disk(const struct model *m, long maxfile) {
  static struct rd_commit rc[64];
  oc c, last;
  char msg[256] = "";
  uint8_t root[32];
  int n, i, j;
  int seen[OPH] = {0};
  n = rd_history(db_path, rc, 64, msg, sizeof(msg), maxfile);
  if (n < 0)
    mc_fail("stored files: %s", msg);
  memset(&last, -1, sizeof(last));
  for (i = 0; i < n; i++) {
    if (!commit_cont(m->u, &rc[i], &c))
      mc_fail("stored files: commit %d holds a record that was never written", i);
    ref_root(m->u, c.c, root);
    if (memcmp(root, rc[i].root, 32) != 0)
      mc_fail("stored files: commit %d: nodes do not hash to the root of its contents", i);
    last = c;
    for (j = 0; j < m->nhist; j++)
      if (memcmp(&m->hist[j], &c, sizeof(c)) == 0)
        seen[j] = 1;
    if (!model_known(m, &c))
      mc_fail("stored files: commit %d was never made", i);
  }
  if (memcmp(&last, &m->disk, sizeof(last)) != 0)
    mc_fail("stored files: the newest commit is not the last one made");
  for (j = 0; j < m->nhist; j++)
    if (!seen[j])
      mc_fail("stored files: a commit is missing from the history");
  rd_free(rc, n);
}

/* Everything given back? */
void
check_clean(const char *when) {
  struct envstat st;
  env_stat(&st);
  if (st.allocs)
    mc_fail("%s: %ld allocations (%zu bytes) are never freed", when, st.allocs, st.bytes);
  if (st.fds)
    mc_fail("%s: %ld file descriptors stay open", when, st.fds);
  if (st.maps)
    mc_fail("%s: %ld mappings stay", when, st.maps);
  if (st.locks)
    mc_fail("%s: %ld locks stay held", when, st.locks);
  if (st.dirs)
    mc_fail("%s: %ld directory streams stay open", when, st.dirs);
}
