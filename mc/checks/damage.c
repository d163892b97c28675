/* damage.c - see damage.h */
#include "damage.h"

/* ------------------------------------------------------------------ */
/* Images                                                               */
/* ------------------------------------------------------------------ */

/* Changes committed one after another: key, value (-1 removes), "same commit
   as the next" flag. */
struct chg { int8_t k, v, more; };
static const struct chg plan_small[] = {{0, 0}, {1, 1}, {2, 0}, {0, 1}, {9}};
static const struct chg plan_leaf[] = {{0, 1}, {9}};
static const struct chg plan_long[] = {{0, 0}, {1, 1, 1}, {2, 2, 1}, {3, 3}, {1, -1}, {2, 0}, {0, 0, 1}, {4, 2}, {9}};
static const struct chg plan_back[] = {{0, 0}, {1, 0}, {1, -1}, {0, -1}, {2, 1}, {3, 1}, {0, 0}, {9}};

static const struct dplan {
  const char *name;
  int uni, small, nk;
  size_t limit;
  const struct chg *plan;
} plans[] = {
  {"four commits of three keys in one file", 0, 1, 4, 0, plan_small},
  {"a single record", 1, 1, 3, 0, plan_leaf},
  {"four commits over several files", 0, 1, 4, 171, plan_small},
  {"keys differing in the last bits, in one file", 3, 1, 5, 0, plan_back},
  {"keys differing in the first and last bits, over several files", 1, 1, 5, 228, plan_back},
  {"values of up to 900 bytes, several changes per commit", 6, 0, 6, 1300, plan_long},
  {"values of up to 1023 bytes in one file", 0, 0, 6, 0, plan_long},
};

static struct dimg imgs[ARRAY_SIZE(plans)];

int dimg_count(void) { return ARRAY_SIZE(plans); }
const char *dimg_name(int i) { return plans[i].name; }

void
dimg_path(char *buf, size_t n, int file) {
  if (file == 0)
    snprintf(buf, n, "%s/meta", db_path);
  else
    snprintf(buf, n, "%s/%010d", db_path, file);
}

static void
note_ptr(struct dimg *d, int file, long off, int kind) {
  int i;
  for (i = 0; i < d->nptr; i++)
    if (d->pf[i].file == file && d->pf[i].off == off)
      return;
  if (d->nptr == (int)ARRAY_SIZE(d->pf))
    mc_internal("image: too many pointers");
  d->pf[d->nptr].file = file;
  d->pf[d->nptr].off = off;
  d->pf[d->nptr].kind = kind;
  d->nptr += 1;
}

static void
note_node(struct dimg *d, struct ptr p) {
  const uint8_t *n = d->data[p.index] + p.pos;
  long o = p.pos;
  if (n[0] == 2) {
    note_ptr(d, p.index, o + 1, 1);
    return;
  }
  o += 1;
  if (n[0] >> 4 & 1) {
    int bits = n[1];
    if (n[0] >> 4 & 2)
      mc_internal("image: wide prefix");
    o += 1 + (bits + 7) / 8;
  }
  note_ptr(d, p.index, o, 0);
  note_ptr(d, p.index, o + 39, 0);
  note_node(d, ref_ptr(d->data[p.index] + o));
  note_node(d, ref_ptr(d->data[p.index] + o + 39));
}

const struct dimg *
dimg_get(int i) {
  struct dimg *d = &imgs[i];
  const struct dplan *p = &plans[i];
  const struct chg *g;
  struct universe t;
  char path[300];
  uint8_t root[32];
  urkel_t *db;
  urkel_tx_t *tx = NULL;
  int8_t c[OPK];
  struct ptr at;
  int f, n, k;
  if (d->im != NULL)
    return d;
  env_reset();
  env_limits_fast();
  if (p->small)
    ou_small(&d->u, p->uni, p->nk);
  else
    ou_make(&d->u, p->uni, p->nk, 4);
  (void)t;
  if (p->limit)
    urkel_verify_max_file_size = p->limit;
  d->limit = urkel_verify_max_file_size;
  fs_mkdir("/w");
  db = urkel_open(db_path);
  if (db == NULL)
    mc_fail("open fails with error %d", urkel_errno);
  memset(c, -1, sizeof(c));
  for (g = p->plan; g->k != 9; g++) {
    if (tx == NULL)
      tx = urkel_tx_create(db, NULL);
    if (tx == NULL)
      mc_fail("creating a transaction fails with error %d", urkel_errno);
    k = g->k;
    if (g->v >= 0) {
      if (!urkel_tx_insert(tx, d->u.key[k], d->u.val[g->v], d->u.len[g->v]))
        mc_fail("insert fails with error %d", urkel_errno);
    } else if (!urkel_tx_remove(tx, d->u.key[k])) {
      mc_fail("remove fails with error %d", urkel_errno);
    }
    c[k] = g->v;
    if (g->more)
      continue;
    if (!urkel_tx_commit(tx))
      mc_fail("commit fails with error %d", urkel_errno);
    urkel_tx_destroy(tx);
    tx = NULL;
    n = d->nc++;
    if (n == DC_MAX)
      mc_internal("image: too many commits");
    memcpy(d->com[n].c, c, sizeof(c));
    ref_root(&d->u, c, d->com[n].root);
    urkel_root(db, root);
    if (memcmp(root, d->com[n].root, 32) != 0)
      mc_fail("wrong root while building the database");
  }
  urkel_close(db);
  for (f = 0; ; f++) {
    dimg_path(path, sizeof(path), f);
    if (fs_size(path) < 0)
      break;
    if (f > DF_MAX)
      mc_internal("image: too many files");
    d->size[f] = fs_size(path);
    d->data[f] = malloc(d->size[f] + 1);
    fs_read(path, d->data[f], d->size[f]);
    d->nf = f;
  }
  if (d->nf < 1 || d->size[0] != 32)
    mc_fail("the database has no data file or no key file of 32 bytes");
  /* The history, by the independent reading of the format. */
  at.index = 0;
  at.pos = 0;
  for (n = d->size[d->nf] / 38 * 38 - 38; n >= 0; n -= 38)
    if (ref_meta_ok(d->data[d->nf] + n, d->data[0])) {
      at.index = d->nf;
      at.pos = n;
      break;
    }
  for (n = d->nc - 1; n >= 0; n--) {
    const uint8_t *r;
    if (at.index < 1 || (int)at.index > d->nf || at.pos + 38 > d->size[at.index])
      mc_fail("the history of the stored files is broken");
    r = d->data[at.index] + at.pos;
    if (!ref_meta_ok(r, d->data[0]))
      mc_fail("the history of the stored files is broken");
    d->com[n].rec = at;
    d->com[n].at = ref_ptr(r + 11);
    note_ptr(d, at.index, at.pos + 4, 2);
    note_ptr(d, at.index, at.pos + 11, 3);
    if (d->com[n].at.index != 0)
      note_node(d, d->com[n].at);
    at = ref_ptr(r + 4);
  }
  d->im = fs_save();
  return d;
}

void
dimg_load(const struct dimg *d) {
  env_reset();
  env_limits_fast();
  urkel_verify_max_file_size = d->limit;
  fs_restore(d->im);
}

void
dmg_reseal(const struct dimg *d, int file, long off) {
  char path[300];
  size_t len;
  uint8_t *p;
  dimg_path(path, sizeof(path), file);
  p = fs_data(path, &len);
  ref_blake2b(p + off + 18, 20, d->data[0], 32, p + off, 18);
}

/* ------------------------------------------------------------------ */
/* What the damaged files still say                                     */
/* ------------------------------------------------------------------ */

enum cls { EXACT, FAILS, ANY };

struct left {
  const struct dimg *d;
  int broken;                /* no key file, or file names out of order */
  int nf;
  long size[DF_MAX + 4];
  uint8_t data[DF_MAX + 4][8192];
  uint8_t key[32];
  int empty;                 /* no commit record left */
  struct ptr newest;
  enum cls open;             /* EXACT: opens, with the contents of com[cur] */
  int cur;
  struct ptr root;           /* root node of the newest commit */
};

/* Reads what open will find, and does what recovery does. */
static void
left_load(struct left *l, const struct dimg *d) {
  char names[64][256], path[300];
  int n, i, f;
  l->d = d;
  l->broken = l->empty = 0;
  l->nf = 0;
  l->cur = -1;
  l->newest.index = l->root.index = 0;
  l->newest.pos = l->newest.size = l->root.pos = l->root.size = 0;
  dimg_path(path, sizeof(path), 0);
  if (fs_type(path) != 'f' || fs_size(path) < 32)
    l->broken = 1;
  else
    fs_read(path, l->key, 32);
  n = fs_list(db_path, names, 64);
  for (f = 1; ; f++) {
    dimg_path(path, sizeof(path), f);
    if (fs_type(path) == 0)
      break;
    if (fs_type(path) != 'f') {
      l->broken = 1;
      break;
    }
    l->size[f] = fs_size(path);
    if (f > DF_MAX + 2 || l->size[f] > (long)sizeof(l->data[f]))
      mc_internal("damaged file too large");
    fs_read(path, l->data[f], l->size[f]);
    l->nf = f;
  }
  for (i = 0; i < n; i++)
    if (strspn(names[i], "0123456789") == 10 && strlen(names[i]) == 10 && (atoi(names[i]) > l->nf || atoi(names[i]) < 1))
      l->broken = 1;
  if (l->broken)
    return;
  l->empty = 1;
  for (f = l->nf; f >= 1 && l->empty; f--) {
    long o;
    for (o = l->size[f] / 38 * 38 - 38; o >= 0; o -= 38) {
      if (ref_meta_ok(l->data[f] + o, l->key)) {
        l->newest.index = f;
        l->newest.pos = o;
        l->root = ref_ptr(l->data[f] + o + 11);
        l->nf = f;
        l->size[f] = o + 38;
        l->empty = 0;
        break;
      }
    }
  }
  if (l->empty)
    l->nf = 0;
}

static const uint8_t *
at(const struct left *l, struct ptr p, unsigned n) {
  if (p.index < 1 || (int)p.index > l->nf || (long)p.pos + n > l->size[p.index])
    return NULL;
  return l->data[p.index] + p.pos;
}

/* Decodes a node; 0: it cannot be one, 1: yes, -1: who knows. */
struct dnode { int leaf, bits; const uint8_t *pre; struct ptr l, r, v; const uint8_t *lh, *rh, *key; };
static int
decode(const struct left *l, struct ptr p, struct dnode *n) {
  const uint8_t *b = p.size ? at(l, p, p.size) : NULL;
  unsigned o = 1, fl;
  if (b == NULL)
    return 0;
  memset(n, 0, sizeof(*n));
  if ((b[0] & 15) == 2) {
    if (p.size < 40)
      return 0;
    n->leaf = 1;
    n->v = ref_ptr(b + 1);
    n->key = b + 8;
    return b[0] == 2 && p.size == 40 ? 1 : -1;
  }
  if ((b[0] & 15) != 1 || p.size < 79)
    return 0;
  fl = b[0] >> 4;
  if (fl != 0 && fl != 1)
    return -1;
  if (fl) {
    n->bits = b[1];
    o = 2;
  }
  n->pre = b + o;
  o += (n->bits + 7) / 8;
  if (o + 78 > p.size)
    return 0;
  n->l = ref_ptr(b + o);
  n->lh = b + o + 7;
  n->r = ref_ptr(b + o + 39);
  n->rh = b + o + 46;
  return o + 78 == p.size && (!fl || n->bits) ? 1 : -1;
}

/* Which value the leaf must have, by its hash; -1: not a genuine leaf. */
static int
leaf_val(const struct left *l, const struct dnode *n, const uint8_t *want) {
  const struct universe *u = &l->d->u;
  uint8_t h[32], vh[32];
  int v;
  for (v = 0; v < u->nv; v++) {
    ref_blake2b(vh, 32, NULL, 0, u->val[v], u->len[v]);
    ref_hash_leaf(h, n->key, vh);
    if (memcmp(h, want, 32) == 0)
      return v;
  }
  return -1;
}

/* Can the value be read, and is it the right one (v >= 0)? */
static enum cls
value_cls(const struct left *l, const struct dnode *n, int v) {
  const uint8_t *b;
  if (n->v.size > 1023)
    return FAILS;
  if (n->v.size == 0)
    return v >= 0 && l->d->u.len[v] == 0 && at(l, n->v, 0) ? EXACT : ANY;
  b = at(l, n->v, n->v.size);
  if (b == NULL)
    return FAILS;
  if (v < 0 || l->d->u.len[v] != n->v.size || memcmp(b, l->d->u.val[v], n->v.size) != 0)
    return ANY;
  return EXACT;
}

/* Looking up the key below p.  sure: everything so far is genuine, and want
   is the hash the node must have.  with_value: the value of a leaf that is
   not the key's is read, too. */
static enum cls
walk(const struct left *l, struct ptr p, const uint8_t *want, const uint8_t *key, int depth, int with_value) {
  struct dnode n;
  uint8_t h[32];
  int i, v;
  enum cls c;
  switch (decode(l, p, &n)) {
    case 0: return FAILS;
    case -1: return ANY;
  }
  if (n.leaf) {
    v = want ? leaf_val(l, &n, want) : -1;
    if (memcmp(n.key, key, 32) == 0 || with_value) {
      c = value_cls(l, &n, v);
      return c;
    }
    return v >= 0 ? EXACT : ANY;
  }
  if (want) {
    ref_hash_branch(h, n.pre, n.bits, n.lh, n.rh);
    if (memcmp(h, want, 32) != 0)
      want = NULL;
  }
  if (depth + n.bits >= 256)
    return FAILS;
  for (i = 0; i < n.bits; i++)
    if (key_bit(n.pre, i) != key_bit(key, depth + i))
      return want ? EXACT : ANY;
  i = key_bit(key, depth + n.bits);
  c = walk(l, i ? n.r : n.l, want ? (i ? n.rh : n.lh) : NULL, key, depth + n.bits + 1, with_value);
  return c;
}

/* Reading everything below p. */
static enum cls
whole(const struct left *l, struct ptr p, const uint8_t *want, int depth) {
  struct dnode n;
  uint8_t h[32];
  enum cls a, b;
  switch (decode(l, p, &n)) {
    case 0: return FAILS;
    case -1: return ANY;
  }
  if (n.leaf)
    return value_cls(l, &n, leaf_val(l, &n, want));
  ref_hash_branch(h, n.pre, n.bits, n.lh, n.rh);
  if (memcmp(h, want, 32) != 0)
    return ANY;
  a = whole(l, n.l, n.lh, depth + n.bits + 1);
  b = whole(l, n.r, n.rh, depth + n.bits + 1);
  return a == ANY || b == ANY ? ANY : a == FAILS || b == FAILS ? FAILS : EXACT;
}

/* Which commit the root node belongs to. */
static enum cls
root_cls(const struct left *l, struct ptr p, int *com) {
  struct dnode n;
  uint8_t h[32], vh[32];
  int i;
  *com = -1;
  if (p.index == 0) {
    for (i = 0; i < l->d->nc; i++) {
      uint8_t z[32] = {0};
      if (memcmp(l->d->com[i].root, z, 32) == 0) {
        *com = i;
        return EXACT;
      }
    }
    return ANY;
  }
  switch (decode(l, p, &n)) {
    case 0: return FAILS;
    case -1: return ANY;
  }
  if (n.leaf) {
    if (n.v.size > 1023)
      return FAILS;
    if (n.v.size > 0 && at(l, n.v, n.v.size) == NULL)
      return FAILS;
    if (n.v.size == 0 && at(l, n.v, 0) == NULL)
      return ANY;
    ref_blake2b(vh, 32, NULL, 0, n.v.size ? at(l, n.v, n.v.size) : (const uint8_t *)"", n.v.size);
    ref_hash_leaf(h, n.key, vh);
  } else {
    ref_hash_branch(h, n.pre, n.bits, n.lh, n.rh);
  }
  for (i = l->d->nc - 1; i >= 0; i--) {
    if (memcmp(h, l->d->com[i].root, 32) == 0) {
      *com = i;
      return EXACT;
    }
  }
  return ANY;
}

/* Finding an old root in the history; *at: its root node. */
static enum cls
hist_cls(const struct left *l, int com, struct ptr *where) {
  struct ptr p, prev, root;
  const uint8_t *r;
  int c;
  enum cls k;
  uint8_t z[32] = {0};
  where->index = where->pos = where->size = 0;
  if (memcmp(l->d->com[com].root, z, 32) == 0)
    return EXACT;
  if (l->cur >= 0 && memcmp(l->d->com[com].root, l->d->com[l->cur].root, 32) == 0) {
    *where = l->root;
    return EXACT;
  }
  p = l->newest;
  for (;;) {
    r = at(l, p, 38);
    if (r == NULL || !ref_meta_ok(r, l->key))
      return FAILS;
    prev = ref_ptr(r + 4);
    if (prev.index == 0)
      return ANY; /* the history ends here */
    if (prev.index > p.index || (prev.index == p.index && prev.pos >= p.pos))
      return FAILS; /* the history cannot go forwards */
    p = prev;
    r = at(l, p, 38);
    if (r == NULL || !ref_meta_ok(r, l->key))
      return FAILS;
    root = ref_ptr(r + 11);
    k = root_cls(l, root, &c);
    if (k != EXACT)
      return k;
    prev = ref_ptr(r + 4);
    if (prev.index > p.index || (prev.index == p.index && prev.pos >= p.pos))
      return ANY; /* such a record may be refused as a whole */
    if (memcmp(l->d->com[c].root, l->d->com[com].root, 32) == 0) {
      *where = root;
      return EXACT;
    }
  }
}

/* ------------------------------------------------------------------ */
/* The calls                                                            */
/* ------------------------------------------------------------------ */

static struct left L;
static const char *what;
int dmg_leaks;

#define must_fail(what_, ret) \
  do { \
    if (ret) \
      mc_fail("%s: %s succeeds though what it needs is gone", what, what_); \
    if (urkel_errno == URKEL_ENOTFOUND || urkel_errno == 0 || urkel_errno == URKEL_EITEREND) \
      mc_fail("%s: %s: what it needs is gone, but error %d is reported", what, what_, urkel_errno); \
  } while (0)

static void
see_get(urkel_t *db, urkel_tx_t *tx, const int8_t *c, const uint8_t *root, int k, enum cls g, enum cls p) {
  const struct universe *u = &L.d->u;
  uint8_t *buf = malloc(1023), *raw = NULL;
  uint8_t rt[32];
  size_t len = 0, n = 0;
  int ok, ex = 0, v = c[k];
  (void)db;
  urkel_errno = 0;
  ok = urkel_tx_get(tx, buf, &len, u->key[k]);
  if (ok && len > 1023)
    mc_fail("%s: get gives %zu bytes", what, len);
  if (g == FAILS)
    must_fail("get", ok);
  if (g == EXACT) {
    if (v < 0 && (ok || urkel_errno != URKEL_ENOTFOUND))
      mc_fail("%s: get of an absent key gives %d, error %d though all it needs is intact", what, ok, urkel_errno);
    if (v >= 0 && !ok)
      mc_fail("%s: get fails with error %d though all it needs is intact", what, urkel_errno);
    if (v >= 0 && (len != u->len[v] || memcmp(buf, u->val[v], len) != 0))
      mc_fail("%s: get gives a wrong value though all it needs is intact", what);
  }
  urkel_errno = 0;
  ok = urkel_tx_has(tx, u->key[k]);
  if (g == EXACT && (ok != (v >= 0) || (!ok && urkel_errno != URKEL_ENOTFOUND)))
    mc_fail("%s: has gives %d, error %d though all it needs is intact", what, ok, urkel_errno);
  if (!ok && g == FAILS && (urkel_errno == URKEL_ENOTFOUND || urkel_errno == 0))
    mc_fail("%s: has: what it needs is gone, but error %d is reported", what, urkel_errno);
  urkel_errno = 0;
  ok = urkel_tx_prove(tx, &raw, &n, u->key[k]);
  if (p == FAILS)
    must_fail("prove", ok);
  if (p == EXACT && !ok)
    mc_fail("%s: prove fails with error %d though all it needs is intact", what, urkel_errno);
  if (ok) {
    urkel_tx_root(tx, rt);
    len = 0;
    ok = urkel_verify(&ex, buf, &len, raw, n, u->key[k], root ? root : rt);
    if (p == EXACT && !ok)
      mc_fail("%s: a proof does not verify: error %d, though all it needs is intact", what, urkel_errno);
    if (ok && root && (ex != (v >= 0) || (ex && (len != u->len[v] || memcmp(buf, u->val[v], len) != 0))))
      mc_fail("%s: a proof that verifies against a committed root lies", what);
    urkel_free(raw);
  }
  free(buf);
  mc_trans(3);
}

static void
see_iter(urkel_tx_t *tx, const int8_t *c, enum cls w) {
  const struct universe *u = &L.d->u;
  uint8_t key[32], *buf = malloc(1023);
  size_t len;
  int n = 0, i = 0;
  urkel_iter_t *it = urkel_iter_create(tx);
  if (it == NULL)
    mc_fail("%s: no iterator", what);
  for (;;) {
    len = 0;
    urkel_errno = 0;
    if (!urkel_iter_next(it, key, buf, &len))
      break;
    if (len > 1023)
      mc_fail("%s: iterating gives %zu bytes", what, len);
    if (++n > 2000)
      mc_fail("%s: iterating does not end", what);
    if (w != ANY) {
      while (i < u->nk && c[u->order[i]] < 0)
        i += 1;
      if (i == u->nk)
        mc_fail("%s: iterating yields too many records", what);
      if (memcmp(key, u->key[u->order[i]], 32) != 0 || len != u->len[c[u->order[i]]] ||
          memcmp(buf, u->val[c[u->order[i]]], len) != 0)
        mc_fail("%s: iterating yields a wrong record", what);
      i += 1;
    }
  }
  if (w == FAILS)
    must_fail("iterating to the end", 0);
  if (w == EXACT) {
    if (urkel_errno != URKEL_EITEREND)
      mc_fail("%s: iterating fails with error %d though all it needs is intact", what, urkel_errno);
    while (i < u->nk && c[u->order[i]] < 0)
      i += 1;
    if (i != u->nk)
      mc_fail("%s: iterating leaves records out", what);
  }
  /* and once more after the end */
  urkel_iter_next(it, key, buf, &len);
  urkel_iter_destroy(it);
  free(buf);
  mc_trans(n + 1);
}

/* A view whose root node is rp, or unknown when com < 0. */
static void
see_view(urkel_t *db, const uint8_t *root, int com, struct ptr rp) {
  const struct universe *u = &L.d->u;
  static int8_t none[OPK];
  const int8_t *c = com >= 0 ? L.d->com[com].c : none;
  const uint8_t *want = com >= 0 ? L.d->com[com].root : NULL;
  uint8_t z[32] = {0}, got[32];
  enum cls g, p, w;
  urkel_tx_t *tx;
  int k;
  memset(none, -1, sizeof(none));
  urkel_errno = 0;
  tx = urkel_tx_create(db, root);
  if (tx == NULL) {
    if (root == NULL || com >= 0)
      mc_fail("%s: a transaction on an intact root is refused: error %d", what, urkel_errno);
    return;
  }
  urkel_tx_root(tx, got);
  if (want && memcmp(got, want, 32) != 0)
    mc_fail("%s: a transaction has the wrong root", what);
  for (k = 0; k < u->nk; k++) {
    if (want && memcmp(want, z, 32) == 0) {
      g = p = EXACT;
    } else if (want) {
      g = walk(&L, rp, want, u->key[k], 0, 0);
      p = walk(&L, rp, want, u->key[k], 0, 1);
    } else {
      g = p = ANY;
    }
    see_get(db, tx, c, want, k, g, p);
  }
  w = want == NULL ? ANY : memcmp(want, z, 32) == 0 ? EXACT : whole(&L, rp, want, 0);
  see_iter(tx, c, w);
  urkel_tx_destroy(tx);
}

/* One change in a transaction of its own; committed if com. */
static int
try_change(urkel_t *db, int8_t *c, int com_ok, int k, int v, enum cls g, enum cls w, int commit) {
  const struct universe *u = &L.d->u;
  urkel_tx_t *tx = urkel_tx_create(db, NULL);
  uint8_t root[32], want[32];
  int ok, had = c[k];
  if (tx == NULL)
    mc_fail("%s: a transaction on the current root is refused: error %d", what, urkel_errno);
  urkel_errno = 0;
  if (v >= 0)
    ok = urkel_tx_insert(tx, u->key[k], u->val[v], u->len[v]);
  else
    ok = urkel_tx_remove(tx, u->key[k]);
  mc_trans(1);
  if (com_ok && (v >= 0 ? g : w) == EXACT) {
    if (v < 0 && had < 0) {
      if (ok || urkel_errno != URKEL_ENOTFOUND)
        mc_fail("%s: removing an absent key gives %d, error %d though all it needs is intact", what, ok, urkel_errno);
    } else if (!ok) {
      mc_fail("%s: %s key %d fails with error %d though all it needs is intact", what, v < 0 ? "removing" : "inserting", k, urkel_errno);
    } else {
      c[k] = v;
      ref_root(u, c, want);
      urkel_tx_root(tx, root);
      if (memcmp(root, want, 32) != 0)
        mc_fail("%s: a change leads to a wrong root though all it needs is intact", what);
    }
  } else if (!ok && urkel_errno == 0) {
    mc_fail("%s: a change fails without an error", what);
  } else if (com_ok && (v >= 0 ? g : w) == FAILS && v >= 0 && had >= 0 && 0) {
    mc_fail("unreachable");
  }
  if (commit) {
    urkel_errno = 0;
    ok = urkel_tx_commit(tx);
    if (com_ok && (v >= 0 ? g : w) == EXACT && !ok)
      mc_fail("%s: a commit fails with error %d though all it needs is intact", what, urkel_errno);
    mc_trans(1);
  } else {
    c[k] = had;
    ok = 1;
  }
  urkel_tx_destroy(tx);
  return ok;
}

void
dmg_run(const struct dimg *d, int order, const char *w_) {
  const struct universe *u = &d->u;
  urkel_t *db;
  uint8_t root[32], z[32] = {0};
  struct ptr where;
  int i, k, n, com, ok, sure;
  int8_t c[OPK];
  enum cls e, g, w;
  what = w_;
  left_load(&L, d);
  e = ANY;
  com = -1;
  if (!L.broken && !L.empty)
    e = root_cls(&L, L.root, &com);
  if (e != EXACT)
    com = -1;
  urkel_errno = 0;
  db = urkel_open(db_path);
  mc_trans(1);
  mc_count(e == EXACT ? 0 : e == FAILS ? 1 : 2, 1);
  if (db == NULL) {
    if (e == EXACT)
      mc_fail("%s: open fails with error %d though the newest commit's record and root are intact", what, urkel_errno);
    if (urkel_errno == 0)
      mc_fail("%s: open fails without an error", what);
    mc_count(3, 1);
    /* it does not work any better the second time, but it returns */
    db = urkel_open(db_path);
    if (db != NULL)
      urkel_close(db);
    if (dmg_leaks)
      check_clean(what);
    return;
  }
  if (e == FAILS)
    mc_fail("%s: open succeeds though the newest commit's root is gone", what);
  urkel_root(db, root);
  if (e == EXACT && memcmp(root, d->com[com].root, 32) != 0)
    mc_fail("%s: the database does not show the newest commit whose record is intact", what);
  if (!L.broken && L.empty && memcmp(root, z, 32) != 0)
    mc_fail("%s: no commit is left but the database is not empty", what);
  L.cur = com;
  mc_state(mc_hash(com + 10, d, 0) ^ env_fs_hash());
  if (L.broken) {
    com = -1;
    e = ANY;
  }
  if (order == 0)
    see_view(db, NULL, !L.broken && L.empty ? -1 : com, L.root);
  for (n = 0; n < d->nc; n++) {
    enum cls h;
    urkel_tx_t *tx;
    i = order == 0 ? d->nc - 1 - n : n;
    h = L.broken || L.empty || e != EXACT ? ANY : hist_cls(&L, i, &where);
    urkel_errno = 0;
    tx = urkel_tx_create(db, d->com[i].root);
    mc_trans(1);
    if (tx == NULL) {
      if (h == EXACT)
        mc_fail("%s: an old root is refused with error %d though the history up to it is intact", what, urkel_errno);
      if (h == FAILS)
        must_fail("looking up an old root", 0);
      mc_count(4, 1);
    } else {
      if (h == FAILS)
        must_fail("looking up an old root", 1);
      urkel_tx_destroy(tx);
      see_view(db, d->com[i].root, h == EXACT ? i : -1, where);
    }
  }
  /* a root that never was */
  memset(root, 0x77, 32);
  ok = urkel_has(db, u->key[0], root);
  if (ok)
    mc_fail("%s: a root that never was is known", what);
  if (order == 1)
    see_view(db, NULL, !L.broken && L.empty ? -1 : com, L.root);
  /* writing on */
  sure = com >= 0;
  memset(c, -1, sizeof(c));
  if (sure)
    memcpy(c, d->com[com].c, sizeof(c));
  w = !sure ? ANY : memcmp(d->com[com].root, z, 32) == 0 ? EXACT : whole(&L, L.root, d->com[com].root, 0);
  for (k = 0; k < u->nk; k++) {
    g = !sure ? ANY : memcmp(d->com[com].root, z, 32) == 0 ? EXACT : walk(&L, L.root, d->com[com].root, u->key[k], 0, 0);
    try_change(db, c, sure, k, 1, g, w, 0);
    try_change(db, c, sure, k, -1, g, w, 0);
  }
  k = order == 0 ? u->nk - 1 : 0;
  g = !sure ? ANY : memcmp(d->com[com].root, z, 32) == 0 ? EXACT : walk(&L, L.root, d->com[com].root, u->key[k], 0, 0);
  ok = try_change(db, c, sure, k, 0, g, w, 1);
  urkel_close(db);
  db = urkel_open(db_path);
  if (db == NULL) {
    if (g == EXACT)
      mc_fail("%s: after writing on, the database does not open: error %d", what, urkel_errno);
    return;
  }
  if (g == EXACT) {
    uint8_t want[32];
    ref_root(u, c, want);
    urkel_root(db, root);
    if (memcmp(root, want, 32) != 0)
      mc_fail("%s: after writing on, the database shows something else", what);
  }
  for (k = 0; k < u->nk; k++) {
    uint8_t *buf = malloc(1023);
    size_t len = 0;
    urkel_errno = 0;
    ok = urkel_get(db, buf, &len, u->key[k], NULL);
    if (w == EXACT) {
      if (ok != (c[k] >= 0) || (ok && (len != u->len[c[k]] || memcmp(buf, u->val[c[k]], len) != 0)))
        mc_fail("%s: after writing on, get of key %d gives %d, error %d", what, k, ok, urkel_errno);
    }
    free(buf);
  }
  urkel_close(db);
  if (dmg_leaks)
    check_clean(what);
}
