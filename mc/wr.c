/* wr.c - see wr.h */
#include "wr.h"

#define WBUF (1 << 20)

struct item {
  int kind;                /* 0 value, 1 leaf, 2 branch */
  const struct rec *rec;
  uint8_t pre[32], lh[32], rh[32], hash[32];
  int bits, l, r, v;       /* items; -1: pl / pr are known */
  struct ptr pl, pr, at;
  unsigned size;
  int placed;
};

static __thread struct item *its;
static __thread int nits, capits;

static int
new_item(void) {
  if (nits == capits) {
    capits = capits ? capits * 2 : 256;
    its = realloc(its, capits * sizeof(*its));
  }
  memset(&its[nits], 0, sizeof(*its));
  its[nits].l = its[nits].r = its[nits].v = -1;
  return nits++;
}

static void
path_of(const struct wr *w, char *buf, size_t n) {
  snprintf(buf, n, "%s/%010d", w->dir, w->file);
}

static void
flush(struct wr *w) {
  char path[300];
  path_of(w, path, sizeof(path));
  if (w->base)
    fs_pwrite(path, w->buf, w->len - w->base, w->base);
  else
    fs_write(path, w->buf, w->len);
}

static void
roll(struct wr *w) {
  flush(w);
  w->file += 1;
  w->len = w->base = 0;
}

static void
room(struct wr *w, unsigned n) {
  if (w->len + n > w->lay.limit)
    roll(w);
  if (w->len - w->base + n > WBUF)
    mc_internal("writer: file too large");
}

static void
pad(struct wr *w, int n) {
  int i;
  if (w->len + n > w->lay.limit || w->len == 0)
    return;
  for (i = 0; i < n; i++)
    w->buf[w->len++ - w->base] = w->lay.fill == 1 ? 0 : w->lay.fill == 2 ? 0xff : 0x11 * (i % 16);
}

static struct ptr *
memo(struct wr *w, const uint8_t *h) {
  int i;
  if (w->lay.reuse)
    for (i = 0; i < w->nmemo; i++)
      if (memcmp(w->memo[i].hash, h, 32) == 0)
        return &w->memo[i].p;
  return NULL;
}

static int
find_value(const struct wr *w, const struct rec *r) {
  int i;
  if (w->lay.share)
    for (i = 0; i < nits; i++)
      if (its[i].kind == 0 && its[i].rec->len == r->len && memcmp(its[i].rec->val, r->val, r->len) == 0)
        return i;
  return -1;
}

/* Returns an item, or -1 and *known when the node is stored already. */
static int
build(struct wr *w, const struct rec *r, int n, int depth, uint8_t *hash, struct ptr *known) {
  struct ptr *p;
  int i, d, m, l, h;
  struct ptr pl, pr;
  uint8_t lh[32], rh[32], pre[32];
  if (n == 1) {
    uint8_t vh[32];
    ref_blake2b(vh, 32, NULL, 0, r->val, r->len);
    ref_hash_leaf(hash, r->key, vh);
    p = memo(w, hash);
    if (p) {
      *known = *p;
      return -1;
    }
    l = find_value(w, r);
    if (l < 0) {
      l = new_item();
      its[l].rec = r;
      its[l].size = r->len;
    }
    i = new_item();
    its[i].kind = 1;
    its[i].rec = r;
    its[i].v = l;
    its[i].size = 40;
    memcpy(its[i].hash, hash, 32);
    return i;
  }
  for (d = depth; key_bit(r[0].key, d) == key_bit(r[n - 1].key, d); d++)
    ;
  for (m = 0; !key_bit(r[m].key, d); m++)
    ;
  memset(pre, 0, 32);
  for (i = depth; i < d; i++)
    if (key_bit(r->key, i))
      pre[(i - depth) / 8] |= 0x80 >> ((i - depth) % 8);
  l = build(w, r, m, d + 1, lh, &pl);
  h = build(w, r + m, n - m, d + 1, rh, &pr);
  ref_hash_branch(hash, pre, d - depth, lh, rh);
  p = memo(w, hash);
  if (p) {
    if (l >= 0 || h >= 0)
      mc_internal("writer: node known, child not");
    *known = *p;
    return -1;
  }
  i = new_item();
  its[i].kind = 2;
  its[i].bits = d - depth;
  memcpy(its[i].pre, pre, 32);
  memcpy(its[i].lh, lh, 32);
  memcpy(its[i].rh, rh, 32);
  memcpy(its[i].hash, hash, 32);
  its[i].l = l;
  its[i].r = h;
  its[i].pl = pl;
  its[i].pr = pr;
  its[i].size = 1 + (d > depth) + (d - depth + 7) / 8 + 78;
  return i;
}

static void
put_ptr(uint8_t *p, struct ptr v) {
  unsigned a = v.index << 1 | (v.size >> 9 & 1);
  uint32_t b = v.pos << 1 | (v.size >> 8 & 1);
  p[0] = a;
  p[1] = a >> 8;
  p[2] = b;
  p[3] = b >> 8;
  p[4] = b >> 16;
  p[5] = b >> 24;
  p[6] = v.size;
}

static void
encode(const struct item *t, uint8_t *o) {
  if (t->kind == 0) {
    memcpy(o, t->rec->val, t->rec->len);
  } else if (t->kind == 1) {
    struct ptr v = its[t->v].at;
    *o = 2;
    put_ptr(o + 1, v);
    memcpy(o + 8, t->rec->key, 32);
  } else {
    *o++ = t->bits ? 0x11 : 0x01;
    if (t->bits) {
      *o++ = t->bits;
      memcpy(o, t->pre, (t->bits + 7) / 8);
      o += (t->bits + 7) / 8;
    }
    put_ptr(o, t->l >= 0 ? its[t->l].at : t->pl);
    memcpy(o + 7, t->lh, 32);
    put_ptr(o + 39, t->r >= 0 ? its[t->r].at : t->pr);
    memcpy(o + 46, t->rh, 32);
  }
}

static void
place(struct wr *w, int i) {
  struct item *t = &its[i];
  room(w, t->size);
  t->at.index = w->file;
  t->at.pos = w->len;
  t->at.size = t->size;
  memset(w->buf + w->len - w->base, 0, t->size);
  w->len += t->size;
  pad(w, w->lay.gap);
}

void
wr_begin(struct wr *w, const char *dir, const struct wlay *lay, const uint8_t *key) {
  char path[300];
  memset(w, 0, sizeof(*w) - sizeof(w->memo));
  snprintf(w->dir, sizeof(w->dir), "%s", dir);
  w->lay = *lay;
  memcpy(w->key, key, 32);
  fs_mkdir(dir);
  snprintf(path, sizeof(path), "%s/meta", dir);
  fs_write(path, key, 32);
  w->file = 1;
  w->buf = malloc(WBUF);
}

void
wr_resume(struct wr *w, const char *dir, const struct wlay *lay) {
  char path[300];
  long o;
  memset(w, 0, sizeof(*w) - sizeof(w->memo));
  snprintf(w->dir, sizeof(w->dir), "%s", dir);
  w->lay = *lay;
  snprintf(path, sizeof(path), "%s/meta", dir);
  if (fs_read(path, w->key, 32) != 32)
    mc_fail("no key file of 32 bytes");
  w->buf = malloc(WBUF);
  for (w->file = 1; ; w->file++) {
    path_of(w, path, sizeof(path));
    if (fs_type(path) == 0)
      break;
  }
  while (--w->file >= 1) {
    path_of(w, path, sizeof(path));
    w->len = fs_read(path, w->buf, WBUF);
    for (o = w->len / 38 * 38 - 38; o >= 0; o -= 38) {
      if (ref_meta_ok(w->buf + o, w->key)) {
        w->last.index = w->file;
        w->last.pos = o;
        w->len = o + 38;
        return;
      }
    }
    fs_unlink(path);
  }
  w->file = 1;
  w->len = 0;
}

void
wr_commit(struct wr *w, const struct rec *r, int n) {
  struct ptr root = {0, 0, 0};
  uint8_t hash[32], *m;
  int i, top = -1, *ord, k = 0;
  nits = 0;
  if (w->lay.early && w->len > 0)
    roll(w);
  if (n > 0) {
    top = build(w, r, n, 0, hash, &root);
    ord = malloc((nits + 1) * sizeof(int));
    switch (w->lay.order) {
      case 0:
        for (i = 0; i < nits; i++)
          ord[k++] = i;
        break;
      case 1:
        for (i = nits - 1; i >= 0; i--)
          ord[k++] = i;
        break;
      case 2:
      case 3:
        for (i = 0; i < nits; i++)
          if ((its[i].kind == 0) == (w->lay.order == 2))
            ord[k++] = i;
        for (i = nits - 1; i >= 0; i--)
          if ((its[i].kind == 0) != (w->lay.order == 2))
            ord[k++] = i;
        break;
    }
    /* first the places, then the bytes: files before the current one are
       complete only after the second round */
    {
      int f0 = w->file;
      long l0 = w->len;
      long base0 = w->base;
      uint8_t *b0 = malloc(l0 - base0 + 1);
      memcpy(b0, w->buf, l0 - base0);
      for (i = 0; i < k; i++)
        place(w, ord[i]);
      w->file = f0;
      w->len = l0;
      w->base = base0;
      memcpy(w->buf, b0, l0 - base0);
      free(b0);
      for (i = 0; i < k; i++) {
        struct item *t = &its[ord[i]];
        room(w, t->size);
        if (t->at.index != (unsigned)w->file || t->at.pos != w->len)
          mc_internal("writer: places differ");
        encode(t, w->buf + w->len - w->base);
        w->len += t->size;
        pad(w, w->lay.gap);
        if (t->kind != 0 && w->nmemo < WMEMO) {
          memcpy(w->memo[w->nmemo].hash, t->hash, 32);
          w->memo[w->nmemo++].p = t->at;
        }
      }
    }
    if (top >= 0)
      root = its[top].at;
    free(ord);
  }
  /* the record */
  if (w->len / 38 * 38 + (w->len % 38 ? 76 : 38) > w->lay.limit)
    roll(w);
  while (w->len % 38)
    w->buf[w->len++ - w->base] = w->lay.fill == 2 ? 0xee : 0;
  m = w->buf + w->len - w->base;
  m[0] = 0x6c;
  m[1] = 0x6b;
  m[2] = 0x72;
  m[3] = 0x6d;
  put_ptr(m + 4, w->last);
  put_ptr(m + 11, root);
  ref_blake2b(m + 18, 20, w->key, 32, m, 18);
  w->last.index = w->file;
  w->last.pos = w->len;
  w->last.size = 0;
  w->len += 38;
}

void
wr_tail(struct wr *w, int n, int fill) {
  memset(w->buf + w->len - w->base, fill, n);
  w->len += n;
}

void
wr_end(struct wr *w) {
  flush(w);
  free(w->buf);
  w->buf = NULL;
}

void
wr_skip(struct wr *w, long pos) {
  flush(w);
  w->base = w->len = pos;
}

void
wr_skip_file(struct wr *w, int index) {
  char empty[300];
  flush(w);
  snprintf(empty, sizeof(empty), "%s/%010d", w->dir, w->file + 1);
  if (index > w->file + 1)
    fs_write(empty, "", 0);
  fs_links(empty, w->dir, w->file + 2, index);
  w->file = index;
  w->base = w->len = 0;
}
