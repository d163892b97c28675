/* ref.c - the reference: an independent implementation of what the library
 * documents (BLAKE2b, tree hashing, proofs, on-disk format), written from the
 * specification and sharing nothing with the library's sources.
 */
#include "ops.h"

/* ------------------------------------------------------------------ */
/* BLAKE2b (RFC 7693)                                                   */
/* ------------------------------------------------------------------ */

static const uint64_t iv[8] = {
  0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL,
  0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL,
  0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL
};

static const uint8_t sg[10][16] = {
  {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
  {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
  {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
  {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
  {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
  {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
  {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
  {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
  {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
  {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}
};

#define ROR(x, n) (((x) >> (n)) | ((x) << (64 - (n))))

static void
b2_block(uint64_t h[8], const uint8_t *b, uint64_t t, int last) {
  uint64_t v[16], m[16];
  int i, r;
  for (i = 0; i < 16; i++) {
    uint64_t w = 0;
    int j;
    for (j = 7; j >= 0; j--)
      w = (w << 8) | b[i * 8 + j];
    m[i] = w;
  }
  for (i = 0; i < 8; i++) {
    v[i] = h[i];
    v[i + 8] = iv[i];
  }
  v[12] ^= t;
  if (last)
    v[14] = ~v[14];
#define G(a, b_, c, d, x, y) do { \
    v[a] += v[b_] + (x); v[d] = ROR(v[d] ^ v[a], 32); \
    v[c] += v[d]; v[b_] = ROR(v[b_] ^ v[c], 24); \
    v[a] += v[b_] + (y); v[d] = ROR(v[d] ^ v[a], 16); \
    v[c] += v[d]; v[b_] = ROR(v[b_] ^ v[c], 63); } while (0)
  for (r = 0; r < 12; r++) {
    const uint8_t *s = sg[r % 10];
    G(0, 4, 8, 12, m[s[0]], m[s[1]]);
    G(1, 5, 9, 13, m[s[2]], m[s[3]]);
    G(2, 6, 10, 14, m[s[4]], m[s[5]]);
    G(3, 7, 11, 15, m[s[6]], m[s[7]]);
    G(0, 5, 10, 15, m[s[8]], m[s[9]]);
    G(1, 6, 11, 12, m[s[10]], m[s[11]]);
    G(2, 7, 8, 13, m[s[12]], m[s[13]]);
    G(3, 4, 9, 14, m[s[14]], m[s[15]]);
  }
  for (i = 0; i < 8; i++)
    h[i] ^= v[i] ^ v[i + 8];
}

void
ref_blake2b(uint8_t *out, size_t outlen, const void *key, size_t keylen,
            const void *data, size_t len) {
  uint64_t h[8];
  const uint8_t *p = data;
  uint8_t blk[128];
  uint64_t t = 0;
  size_t i;
  memcpy(h, iv, sizeof(h));
  h[0] ^= 0x01010000 ^ (keylen << 8) ^ outlen;
  if (keylen > 0) {
    memset(blk, 0, 128);
    memcpy(blk, key, keylen);
    t += 128;
    if (len == 0) {
      b2_block(h, blk, t, 1);
      goto done;
    }
    b2_block(h, blk, t, 0);
  }
  while (len > 128) {
    t += 128;
    b2_block(h, p, t, 0);
    p += 128;
    len -= 128;
  }
  memset(blk, 0, 128);
  if (len)
    memcpy(blk, p, len);
  t += len;
  b2_block(h, blk, t, 1);
done:
  for (i = 0; i < outlen; i++)
    out[i] = h[i / 8] >> (8 * (i % 8));
}

/* ------------------------------------------------------------------ */
/* Universe                                                             */
/* ------------------------------------------------------------------ */

int
key_bit(const uint8_t *key, int i) {
  return (key[i / 8] >> (7 - i % 8)) & 1;
}

void
uni_init(struct universe *u) {
  memset(u, 0, sizeof(*u));
}

int
uni_key(struct universe *u, const uint8_t *key) {
  if (u->nk >= MAXK)
    mc_internal("universe: too many keys");
  memcpy(u->key[u->nk], key, 32);
  return u->nk++;
}

int
uni_key_bits(struct universe *u, const uint8_t *base, int bit) {
  uint8_t k[32];
  memcpy(k, base, 32);
  if (bit >= 0)
    k[bit / 8] ^= 0x80 >> (bit % 8);
  return uni_key(u, k);
}

static uint8_t *pooled[1024][8];

int
uni_val(struct universe *u, size_t len, int tag) {
  size_t j;
  if (u->nv >= MAXV)
    mc_internal("universe: too many values");
  if (len > 1023 || tag < 0 || tag > 7)
    mc_internal("universe: bad value");
  if (pooled[len][tag] == NULL) {
    uint32_t x = len * 2654435761u + tag * 40503u + 7;
    uint8_t *p = malloc(len + 1);
    for (j = 0; j < len; j++) {
      x = x * 1664525u + 1013904223u;
      p[j] = x >> 24;
    }
    pooled[len][tag] = p;
  }
  u->val[u->nv] = pooled[len][tag];
  u->len[u->nv] = len;
  return u->nv++;
}

static const struct universe *sort_u;
static int
key_cmp(const void *a, const void *b) {
  return memcmp(sort_u->key[*(const int *)a], sort_u->key[*(const int *)b], 32);
}

void
uni_done(struct universe *u) {
  int i;
  for (i = 0; i < u->nk; i++)
    u->order[i] = i;
  sort_u = u;
  qsort(u->order, u->nk, sizeof(int), key_cmp);
  for (i = 1; i < u->nk; i++)
    if (memcmp(u->key[u->order[i]], u->key[u->order[i - 1]], 32) == 0)
      mc_internal("universe: duplicate key");
}

/* ------------------------------------------------------------------ */
/* Tree hashing                                                         */
/* ------------------------------------------------------------------ */

void
ref_hash_leaf(uint8_t *out, const uint8_t *key, const uint8_t *vh) {
  uint8_t b[65];
  b[0] = 0;
  memcpy(b + 1, key, 32);
  memcpy(b + 33, vh, 32);
  ref_blake2b(out, 32, NULL, 0, b, 65);
}

/* pre: bytes of the prefix as encoded, size in bits. */
void
ref_hash_branch(uint8_t *out, const uint8_t *pre, size_t size, const uint8_t *l,
            const uint8_t *r) {
  uint8_t b[1 + 2 + 32 + 64];
  size_t n = 0;
  if (size == 0) {
    b[n++] = 1;
  } else {
    b[n++] = 2;
    b[n++] = size & 255;
    b[n++] = size >> 8;
    memcpy(b + n, pre, (size + 7) / 8);
    n += (size + 7) / 8;
  }
  memcpy(b + n, l, 32);
  memcpy(b + n + 32, r, 32);
  ref_blake2b(out, 32, NULL, 0, b, n + 64);
}

static void
cut(uint8_t *out, const uint8_t *key, int from, int to) {
  int i;
  memset(out, 0, 32);
  for (i = from; i < to; i++)
    if (key_bit(key, i))
      out[(i - from) / 8] |= 0x80 >> ((i - from) % 8);
}

/* First bit at which the (sorted, distinct) records differ. */
static int
diff_bit(const uint8_t *a, const uint8_t *b) {
  int i;
  for (i = 0; i < 256; i++)
    if (key_bit(a, i) != key_bit(b, i))
      return i;
  return 256;
}

static int
split(const struct rec *r, int n, int d) {
  int i;
  for (i = 0; i < n; i++)
    if (key_bit(r[i].key, d))
      return i;
  return n;
}

static void
node_hash(const struct rec *r, int n, int depth, uint8_t *out) {
  uint8_t l[32], h[32], pre[32];
  int d, m;
  if (n == 0) {
    memset(out, 0, 32);
    return;
  }
  if (n == 1) {
    ref_blake2b(h, 32, NULL, 0, r->val, r->len);
    ref_hash_leaf(out, r->key, h);
    return;
  }
  d = diff_bit(r[0].key, r[n - 1].key);
  m = split(r, n, d);
  node_hash(r, m, d + 1, l);
  node_hash(r + m, n - m, d + 1, h);
  cut(pre, r->key, depth, d);
  ref_hash_branch(out, pre, d - depth, l, h);
}

void
ref_root_recs(const struct rec *r, int n, uint8_t *root) {
  node_hash(r, n, 0, root);
}

int
ref_recs(const struct universe *u, const int8_t *c, struct rec *r) {
  int i, n = 0;
  for (i = 0; i < u->nk; i++) {
    int k = u->order[i];
    if (c[k] >= 0) {
      r[n].key = u->key[k];
      r[n].val = u->val[c[k]];
      r[n].len = u->len[c[k]];
      n += 1;
    }
  }
  return n;
}

/* Roots are asked for again and again: a small direct-mapped memo. */
#define MEMO 8192
static struct { uint64_t h; int full; uint8_t root[32]; } memo[MEMO];

void
ref_root(const struct universe *u, const int8_t *c, uint8_t *root) {
  struct rec r[MAXK];
  uint64_t h = 1, h2 = 99;
  int i, n = ref_recs(u, c, r);
  size_t slot;
  if (n > 24) {
    ref_root_recs(r, n, root);
    return;
  }
  for (i = 0; i < n; i++) {
    uint64_t w[2];
    h = mc_hash(h, r[i].key, 32);
    w[0] = (uint64_t)(uintptr_t)r[i].val;
    w[1] = r[i].len;
    h = mc_hash(h, w, 16);
  }
  (void)h2;
  slot = h % MEMO;
  if (memo[slot].full && memo[slot].h == h) {
    memcpy(root, memo[slot].root, 32);
    return;
  }
  ref_root_recs(r, n, root);
  memo[slot].h = h;
  memo[slot].full = 1;
  memcpy(memo[slot].root, root, 32);
}

/* ------------------------------------------------------------------ */
/* Proofs                                                               */
/* ------------------------------------------------------------------ */

static size_t
put_bits(uint8_t *o, const uint8_t *pre, size_t size) {
  size_t n = 0;
  if (size >= 128)
    o[n++] = 0x80 | (size >> 8);
  o[n++] = size & 255;
  memcpy(o + n, pre, (size + 7) / 8);
  return n + (size + 7) / 8;
}

/* The documented proof for key in the tree of the sorted records. */
size_t
ref_prove(const struct rec *r, int n, const uint8_t *key, uint8_t *out) {
  static __thread struct { uint8_t pre[32]; int size; uint8_t hash[32]; } st[257];
  int depth = 0, cnt = 0, type = 0, i;
  uint8_t pre[32], l[32], h[32];
  size_t o = 0, bm;
  int psize = 0;

  while (n > 1) {
    int d = diff_bit(r[0].key, r[n - 1].key);
    int m = split(r, n, d), j;
    for (j = depth; j < d; j++)
      if (key_bit(key, j) != key_bit(r->key, j))
        break;
    cut(pre, r->key, depth, d);
    if (j < d) {
      type = 1;
      psize = d - depth;
      node_hash(r, m, d + 1, l);
      node_hash(r + m, n - m, d + 1, h);
      goto emit;
    }
    memcpy(st[cnt].pre, pre, 32);
    st[cnt].size = d - depth;
    if (key_bit(key, d)) {
      node_hash(r, m, d + 1, st[cnt].hash);
      r += m;
      n -= m;
    } else {
      node_hash(r + m, n - m, d + 1, st[cnt].hash);
      n = m;
    }
    cnt += 1;
    depth = d + 1;
  }
  if (n == 0)
    type = 0;
  else
    type = memcmp(r->key, key, 32) == 0 ? 3 : 2;
emit:
  out[o++] = (type << 14 | depth) & 255;
  out[o++] = (type << 14 | depth) >> 8;
  out[o++] = cnt & 255;
  out[o++] = cnt >> 8;
  bm = o;
  memset(out + bm, 0, (cnt + 7) / 8);
  o += (cnt + 7) / 8;
  for (i = 0; i < cnt; i++) {
    if (st[i].size > 0) {
      out[bm + i / 8] |= 0x80 >> (i % 8);
      o += put_bits(out + o, st[i].pre, st[i].size);
    }
    memcpy(out + o, st[i].hash, 32);
    o += 32;
  }
  if (type == 1) {
    o += put_bits(out + o, pre, psize);
    memcpy(out + o, l, 32);
    memcpy(out + o + 32, h, 32);
    o += 64;
  } else if (type == 2) {
    memcpy(out + o, r->key, 32);
    ref_blake2b(out + o + 32, 32, NULL, 0, r->val, r->len);
    o += 64;
  } else if (type == 3) {
    out[o++] = r->len & 255;
    out[o++] = r->len >> 8;
    memcpy(out + o, r->val, r->len);
    o += r->len;
  }
  return o;
}

struct cur { const uint8_t *p; size_t n; int bad; };

static const uint8_t *
take(struct cur *c, size_t n) {
  const uint8_t *p = c->p;
  static const uint8_t zero[2048];
  if (c->bad || c->n < n) {
    c->bad = 1;
    return zero;
  }
  c->p += n;
  c->n -= n;
  return p;
}

static int
take_bits(struct cur *c, uint8_t *pre) {
  int s = take(c, 1)[0];
  if (s & 0x80) {
    s = (s & 0x7f) << 8 | take(c, 1)[0];
    if (s < 0x80)
      c->bad = 1;
  }
  if (s == 0 || s > 256)
    c->bad = 1;
  memset(pre, 0, 32);
  if (!c->bad)
    memcpy(pre, take(c, (s + 7) / 8), (s + 7) / 8);
  return s;
}

static int
match(const uint8_t *pre, int size, const uint8_t *key, int depth) {
  int i;
  for (i = 0; i < size; i++) {
    if (depth + i >= 256)
      return 0;
    if (key_bit(pre, i) != key_bit(key, depth + i))
      return 0;
  }
  return 1;
}

/* Folds a proof up to the root it implies (or the error of its step). */
int
proof_eval(const uint8_t *raw, size_t len, const uint8_t *key, uint8_t *root,
           int *exists, uint8_t *val, size_t *vlen) {
  static __thread struct { uint8_t pre[32]; int size; const uint8_t *hash; } st[257];
  struct cur c;
  const uint8_t *bm, *l = NULL, *r = NULL, *v = NULL;
  uint8_t pre[32], next[32], h[32];
  int type, depth, cnt, i, size = 0, vl = 0;

  *exists = 0;
  *vlen = 0;
  c.p = raw;
  c.n = len;
  c.bad = 0;
  i = take(&c, 1)[0];
  i |= take(&c, 1)[0] << 8;
  type = i >> 14;
  depth = i & 0x3fff;
  cnt = take(&c, 1)[0];
  cnt |= take(&c, 1)[0] << 8;
  if (c.bad || depth > 256 || cnt > 256)
    return URKEL_EINVAL;
  bm = take(&c, (cnt + 7) / 8);
  for (i = 0; i < cnt && !c.bad; i++) {
    st[i].size = 0;
    if (bm[i / 8] & (0x80 >> (i % 8)))
      st[i].size = take_bits(&c, st[i].pre);
    st[i].hash = take(&c, 32);
  }
  if (type == 1)
    size = take_bits(&c, pre);
  if (type == 1 || type == 2) {
    l = take(&c, 32);
    r = take(&c, 32);
  }
  if (type == 3) {
    vl = take(&c, 1)[0];
    vl |= take(&c, 1)[0] << 8;
    if (vl > 1023)
      return URKEL_EINVAL;
    v = take(&c, vl);
  }
  if (c.bad || c.n != 0)
    return URKEL_EINVAL;
  switch (type) {
    case 0:
      memset(next, 0, 32);
      break;
    case 1:
      if (match(pre, size, key, depth))
        return URKEL_ESAMEPATH;
      ref_hash_branch(next, pre, size, l, r);
      break;
    case 2:
      if (memcmp(l, key, 32) == 0)
        return URKEL_ESAMEKEY;
      ref_hash_leaf(next, l, r);
      break;
    default:
      ref_blake2b(h, 32, NULL, 0, v, vl);
      ref_hash_leaf(next, key, h);
      break;
  }
  for (i = cnt - 1; i >= 0; i--) {
    if (depth < st[i].size + 1)
      return URKEL_ENEGDEPTH;
    depth -= 1;
    memcpy(h, next, 32);
    if (key_bit(key, depth))
      ref_hash_branch(next, st[i].pre, st[i].size, st[i].hash, h);
    else
      ref_hash_branch(next, st[i].pre, st[i].size, h, st[i].hash);
    depth -= st[i].size;
    if (!match(st[i].pre, st[i].size, key, depth))
      return URKEL_EPATHMISMATCH;
  }
  if (depth != 0)
    return URKEL_ETOODEEP;
  memcpy(root, next, 32);
  if (type == 3) {
    *exists = 1;
    memcpy(val, v, vl);
    *vlen = vl;
  }
  return 0;
}

int
ref_verify(const uint8_t *raw, size_t len, const uint8_t *key,
           const uint8_t *root, int *exists, uint8_t *val, size_t *vlen) {
  uint8_t got[32];
  int r = proof_eval(raw, len, key, got, exists, val, vlen);
  if (r == 0 && memcmp(got, root, 32) != 0) {
    *exists = 0;
    *vlen = 0;
    return URKEL_EHASHMISMATCH;
  }
  return r;
}

/* ------------------------------------------------------------------ */
/* On-disk format: reader                                               */
/* ------------------------------------------------------------------ */

#define RDMAXF 0x7fff
struct rd {
  int nf;
  uint8_t *data[RDMAXF + 1];
  long size[RDMAXF + 1];
  char *msg;
  size_t msgn;
  struct rd_commit *out;
  int bad;
};

#define RDERR(...) do { if (!rd->bad) snprintf(rd->msg, rd->msgn, __VA_ARGS__); rd->bad = 1; } while (0)

struct ptr
ref_ptr(const uint8_t *p) {
  struct ptr r;
  unsigned a = p[0] | p[1] << 8;
  uint32_t b = p[2] | p[3] << 8 | p[4] << 16 | (uint32_t)p[5] << 24;
  r.index = a >> 1;
  r.pos = b >> 1;
  r.size = (a & 1) << 9 | (b & 1) << 8 | p[6];
  return r;
}

static const uint8_t *
rd_at(struct rd *rd, struct ptr p, unsigned n) {
  if (p.index < 1 || (int)p.index > rd->nf) {
    RDERR("pointer to file %u of %d", p.index, rd->nf);
    return NULL;
  }
  if ((long)p.pos + n > rd->size[p.index]) {
    RDERR("pointer to %u+%u beyond the end (%ld) of file %u", p.pos, n, rd->size[p.index], p.index);
    return NULL;
  }
  return rd->data[p.index] + p.pos;
}

/* Reads the subtree; path holds the bits above. Returns its hash. */
static void
rd_node(struct rd *rd, struct ptr p, uint8_t *path, int depth, uint8_t *hash) {
  const uint8_t *d;
  uint8_t h[32], l[32];
  unsigned need;
  memset(hash, 0, 32);
  if (rd->bad)
    return;
  d = rd_at(rd, p, p.size);
  if (d == NULL)
    return;
  if (p.size < 1) {
    RDERR("node of size 0");
    return;
  }
  if ((d[0] & 15) == 2) {
    struct ptr v;
    const uint8_t *val;
    struct rd_commit *c = rd->out;
    int i;
    if (d[0] != 2 || p.size != 40) {
      RDERR("leaf record: first byte %u, size %u", d[0], p.size);
      return;
    }
    v = ref_ptr(d + 1);
    if (v.size > 1023) {
      RDERR("value of %u bytes", v.size);
      return;
    }
    val = v.size == 0 ? d : rd_at(rd, v, v.size);
    if (val == NULL)
      return;
    for (i = 0; i < depth; i++)
      if (key_bit(path, i) != key_bit(d + 8, i)) {
        RDERR("leaf lies off its path");
        return;
      }
    if (c->nrec >= RD_MAXREC) {
      RDERR("too many records");
      return;
    }
    memcpy(c->rec[c->nrec].key, d + 8, 32);
    memcpy(c->rec[c->nrec].val, val, v.size);
    c->rec[c->nrec].len = v.size;
    c->nrec += 1;
    ref_blake2b(h, 32, NULL, 0, val, v.size);
    ref_hash_leaf(hash, d + 8, h);
    return;
  }
  if ((d[0] & 15) == 1) {
    unsigned flags = d[0] >> 4, size = 0, o = 1, i;
    const uint8_t *pre = NULL;
    int side;
    if (flags == 1) {
      size = d[o++];
      if (size == 0) {
        RDERR("node with an empty prefix marked as prefixed");
        return;
      }
    } else if (flags == 3) {
      size = d[o] | d[o + 1] << 8;
      o += 2;
      if (size != 256) {
        RDERR("node with a wide prefix of %u bits", size);
        return;
      }
    } else if (flags != 0) {
      RDERR("node flags %u", flags);
      return;
    }
    pre = d + o;
    o += (size + 7) / 8;
    need = o + 2 * 39;
    if (need != p.size) {
      RDERR("branch record of %u bytes, pointer says %u", need, p.size);
      return;
    }
    if (depth + (int)size + 1 > 256) {
      RDERR("tree deeper than a key");
      return;
    }
    for (i = 0; i < size; i++) {
      int at = depth + i;
      path[at / 8] &= ~(0x80 >> (at % 8));
      if (key_bit(pre, i))
        path[at / 8] |= 0x80 >> (at % 8);
    }
    for (side = 0; side < 2; side++) {
      int at = depth + size;
      path[at / 8] &= ~(0x80 >> (at % 8));
      if (side)
        path[at / 8] |= 0x80 >> (at % 8);
      rd_node(rd, ref_ptr(d + o + side * 39), path, at + 1, side ? h : l);
      if (!rd->bad && memcmp(side ? h : l, d + o + side * 39 + 7, 32) != 0)
        RDERR("stored child hash is not the child's hash");
    }
    ref_hash_branch(hash, pre, size, l, h);
    return;
  }
  RDERR("node type %u", d[0]);
}

int
ref_meta_ok(const uint8_t *d, const uint8_t *key) {
  uint8_t sum[20];
  if (d[0] != 0x6c || d[1] != 0x6b || d[2] != 0x72 || d[3] != 0x6d)
    return 0;
  ref_blake2b(sum, 20, key, 32, d, 18);
  return memcmp(sum, d + 18, 20) == 0;
}

int
rd_history(const char *dir, struct rd_commit *out, int max, char *msg,
           size_t msgn, long maxfile) {
  static struct rd rds;
  struct rd *rd = &rds;
  char path[512];
  uint8_t key[64];
  int n = 0, i, f;
  struct ptr at;
  rd->nf = rd->bad = 0;
  rd->out = NULL;
  rd->msg = msg;
  rd->msgn = msgn;
  snprintf(path, sizeof(path), "%s/meta", dir);
  if (fs_read(path, key, 33) != 32) {
    snprintf(msg, msgn, "key file missing or not of 32 bytes");
    return -1;
  }
  for (f = 1; f <= RDMAXF; f++) {
    long s;
    snprintf(path, sizeof(path), "%s/%010d", dir, f);
    s = fs_size(path);
    if (s < 0)
      break;
    if (maxfile && s > maxfile) {
      RDERR("data file %d has %ld bytes, the maximum is %ld", f, s, maxfile);
      goto fail;
    }
    rd->size[f] = s;
    rd->nf = f;
    if (env_real) {
      rd->data[f] = malloc(s + 1);
      fs_read(path, rd->data[f], s);
    } else {
      size_t len;
      rd->data[f] = fs_data(path, &len);
    }
  }
  /* Newest record: the last valid one in the last file that has any. */
  at.index = 0;
  at.pos = 0;
  for (f = rd->nf; f >= 1 && at.index == 0; f--) {
    long o = rd->size[f] - rd->size[f] % 38;
    for (o -= 38; o >= 0; o -= 38) {
      if (ref_meta_ok(rd->data[f] + o, key)) {
        at.index = f;
        at.pos = o;
        break;
      }
    }
  }
  while (at.index != 0 && !rd->bad) {
    const uint8_t *d = rd_at(rd, at, 38);
    struct ptr prev, root;
    if (d == NULL)
      break;
    if (!ref_meta_ok(d, key) || at.pos % 38) {
      RDERR("history leads to something that is no commit record (file %u at %u)", at.index, at.pos);
      break;
    }
    if (n >= max) {
      RDERR("history longer than expected (%d)", max);
      break;
    }
    prev = ref_ptr(d + 4);
    root = ref_ptr(d + 11);
    out[n].nrec = 0;
    out[n].rec = malloc(sizeof(*out[n].rec) * RD_MAXREC);
    rd->out = &out[n];
    memset(out[n].root, 0, 32);
    n += 1;
    if (root.index != 0) {
      uint8_t pathb[32] = {0};
      rd_node(rd, root, pathb, 0, out[n - 1].root);
    }
    if (prev.index > at.index || (prev.index == at.index && prev.pos >= at.pos))
      RDERR("commit record points forwards");
    at = prev;
  }
fail:
  for (f = 1; f <= rd->nf && env_real; f++)
    free(rd->data[f]);
  if (rd->bad) {
    rd_free(out, n);
    return -1;
  }
  /* Oldest first. */
  for (i = 0; i < n / 2; i++) {
    struct rd_commit t = out[i];
    out[i] = out[n - 1 - i];
    out[n - 1 - i] = t;
  }
  return n;
}

void
rd_free(struct rd_commit *c, int n) {
  int i;
  for (i = 0; i < n; i++) {
    free(c[i].rec);
    c[i].rec = NULL;
  }
}
