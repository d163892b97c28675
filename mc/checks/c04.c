/* C04 - proof verification is sound and total on arbitrary bytes */
#include "../view.h"

/* ------------------------------------------------------------------ */
/* One verification against the reference                               */
/* ------------------------------------------------------------------ */

static unsigned long seen_ok;

static void
hex(char *o, size_t cap, const uint8_t *p, size_t n) {
  size_t i;
  for (i = 0; i < n && 2 * i + 4 < cap; i++)
    sprintf(o + 2 * i, "%02x", p[i]);
  if (i < n)
    strcpy(o + 2 * i, "..");
  if (n == 0)
    *o = 0;
}

static void
bad(const char *what, const uint8_t *raw, size_t len, const uint8_t *key, const uint8_t *root) {
  static char a[2600], k[70], r[70];
  hex(a, sizeof(a), raw, len);
  hex(k, sizeof(k), key, 32);
  hex(r, sizeof(r), root, 32);
  mc_fail("%s: proof (%zu bytes) %s key %s root %s", what, len, a, k, r);
}

/* Verifies raw (copied into a buffer of exactly len bytes). */
static int
one(const uint8_t *raw, size_t len, const uint8_t *key, const uint8_t *root) {
  static __thread uint8_t *vb;
  static uint8_t rv[1024];
  char msg[200];
  uint8_t *copy = malloc(len > 0 ? len : 1), k[32], rt[32];
  uint8_t *p = copy;
  size_t n = 4242, rn;
  int ex = 77, rex, e, ok;
  if (vb == NULL)
    vb = malloc(1023);
  if (len > 0)
    memcpy(copy, raw, len);
  memcpy(k, key, 32);
  memcpy(rt, root, 32);
  urkel_errno = 999;
  ok = urkel_verify(&ex, vb, &n, p, len, k, rt);
  e = ref_verify(raw, len, key, root, &rex, rv, &rn);
  mc_trans(1);
  if (ok != (e == 0)) {
    snprintf(msg, sizeof(msg), "verification %s (error %d), expected %s (error %d)",
             ok ? "succeeds" : "fails", urkel_errno, e ? "failure" : "success", e);
    bad(msg, raw, len, key, root);
  }
  if (!ok && urkel_errno != e) {
    snprintf(msg, sizeof(msg), "verification fails with error %d, expected %d", urkel_errno, e);
    bad(msg, raw, len, key, root);
  }
  if (ok) {
    seen_ok += 1;
    if (ex != rex || (ex && (n != rn || memcmp(vb, rv, n) != 0))) {
      snprintf(msg, sizeof(msg), "verification answers exists=%d with %zu bytes, the proof says exists=%d with %zu bytes",
               ex, n, rex, rn);
      bad(msg, raw, len, key, root);
    }
  }
  if (memcmp(copy, raw, len) != 0 || memcmp(k, key, 32) != 0 || memcmp(rt, root, 32) != 0)
    bad("verification changes its inputs", raw, len, key, root);
  free(copy);
  return ok ? 1 + ex : 0;
}

/* Also against the root the bytes fold to. */
static void
both(const uint8_t *raw, size_t len, const uint8_t *key, const uint8_t *root) {
  static uint8_t v[1024];
  uint8_t own[32];
  size_t n;
  int ex;
  one(raw, len, key, root);
  if (proof_eval(raw, len, key, own, &ex, v, &n) == 0 && memcmp(own, root, 32) != 0)
    one(raw, len, key, own);
}

/* ------------------------------------------------------------------ */
/* Genuine proofs                                                       */
/* ------------------------------------------------------------------ */

struct tree { struct universe u; int8_t c[MAXK]; struct rec r[MAXK]; int nr; uint8_t root[32]; };

#define NTREES 14
static void
make_tree(struct tree *t, int id) {
  int i, nk;
  memset(t, 0, sizeof(*t));
  memset(t->c, -1, sizeof(t->c));
  if (id < 8) {
    ou_make(&t->u, id, 6, 3);
    for (i = 0; i < 4; i++)
      t->c[i] = i % 3;
  } else {
    static const int chain[] = {1, 2, 10, 18, 130, 257};
    uint8_t b[32];
    memset(b, 0x96, 32);
    nk = chain[id - 8];
    uni_init(&t->u);
    uni_key(&t->u, b);
    for (i = 0; i < nk - 1; i++)
      uni_key_bits(&t->u, b, 255 - i);
    if (nk < 200)
      uni_key_bits(&t->u, b, 3);
    uni_val(&t->u, 3, 1);
    uni_done(&t->u);
    for (i = 0; i < nk; i++)
      t->c[i] = 0;
  }
  t->nr = ref_recs(&t->u, t->c, t->r);
  ref_root_recs(t->r, t->nr, t->root);
}

/* keys of which proofs are taken */
static int
pick_key(const struct tree *t, int i) {
  if (t->u.nk <= 8)
    return i < t->u.nk ? i : -1;
  switch (i) {
    case 0: return 0;
    case 1: return t->u.nk - 1;
    case 2: return t->u.nk / 2;
    case 3: return 1;
  }
  return -1;
}

static struct tree *
tree(int id) {
  static struct tree ts[NTREES];
  static int have[NTREES];
  if (!have[id]) {
    make_tree(&ts[id], id);
    have[id] = 1;
  }
  return &ts[id];
}

static void
truth(const struct tree *t, const uint8_t *raw, size_t len, const uint8_t *key) {
  int got = one(raw, len, key, t->root), i;
  if (got == 0)
    return;
  for (i = 0; i < t->nr; i++)
    if (memcmp(t->r[i].key, key, 32) == 0)
      break;
  if ((got == 2) != (i < t->nr))
    bad(got == 2 ? "an absent key is proved present" : "a present key is proved absent", raw, len, key, t->root);
}

static void
mut(const struct tree *t, const uint8_t *raw, size_t len, const uint8_t *key) {
  truth(t, raw, len, key);
  both(raw, len, key, t->root);
}

#define NKEYS 8
#define NCLASS 8
static long mutate_items(void) { return (long)NTREES * NKEYS * NCLASS; }

static void
mutate_run(long item) {
  struct tree *t = tree(item / (NKEYS * NCLASS));
  int ki = item / NCLASS % NKEYS, cl = item % NCLASS;
  static uint8_t raw[1 << 15], m[1 << 16], w[1 << 15];
  size_t len, i, j, wl;
  int k = pick_key(t, ki), x;
  uint8_t key[32];
  if (k < 0)
    mc_prune();
  memcpy(key, t->u.key[k], 32);
  len = ref_prove(t->r, t->nr, key, raw);
  seen_ok = 0;
  truth(t, raw, len, key);
  if (seen_ok != 1)
    mc_fail("a genuine proof does not verify");
  mc_state(mc_hash(item, raw, len));
  switch (cl) {
    case 0: /* every byte, every value */
    case 1: {
      int step = len > 700 && !mc_thorough ? 16 : 1;
      for (i = cl; i < len; i += 2) {
        if (len > 2000 && !mc_thorough && i >= 100 && i + 100 < len && i % 34 > 1)
          continue;
        memcpy(m, raw, len);
        for (x = 0; x < 256; x += 1) {
          /* long proofs: single bits and edge values only */
          if (step > 1 && i >= 6 && !(x == 0 || x == 255 || x == 128 || x == 1 || x == (raw[i] ^ 1) || x == (raw[i] ^ 128)))
            continue;
          m[i] = x;
          mut(t, m, len, key);
        }
        mc_slow();
      }
      break;
    }
    case 2: /* every first header word; every second header word */
      for (x = 0; x < 65536; x++) {
        memcpy(m, raw, len);
        m[0] = x & 255;
        m[1] = x >> 8;
        if (len < 2000 || x % 64 == 0 || (x & 0x3fff) <= 300)
          mut(t, m, len, key);
        memcpy(m, raw, 2);
        m[2] = x & 255;
        m[3] = x >> 8;
        mut(t, m, len, key);
        mc_slow();
      }
      break;
    case 3: /* truncation, extension */
      for (i = 0; i <= len; i++) {
        mut(t, raw, i, key);
        /* cut at the front and in the middle */
        mut(t, raw + i, len - i, key);
        if (i < len) {
          memcpy(m, raw, i);
          memcpy(m + i, raw + i + 1, len - i - 1);
          mut(t, m, len - 1, key);
        }
        mc_slow();
      }
      for (i = 1; i < 140; i++)
        for (x = 0; x < 3; x++) {
          memcpy(m, raw, len);
          if (x == 2)
            memcpy(m + len, raw, i < len ? i : len);
          else
            memset(m + len, x ? 255 : 0, i);
          mut(t, m, x == 2 && i > len ? 2 * len : len + i, key);
        }
      break;
    case 4: /* a byte inserted anywhere */
      for (i = 0; i <= len; i++) {
        static const uint8_t vals[] = {0, 1, 2, 8, 127, 128, 129, 255};
        memcpy(m, raw, i);
        memcpy(m + i + 1, raw + i, len - i);
        for (j = 0; j < sizeof(vals); j++) {
          m[i] = vals[j];
          mut(t, m, len + 1, key);
        }
        mc_slow();
      }
      break;
    case 5: { /* other keys and roots */
      int o, b;
      uint8_t k2[32], r2[32];
      for (b = 0; b < 256; b++) {
        memcpy(k2, key, 32);
        k2[b / 8] ^= 0x80 >> (b % 8);
        mut(t, raw, len, k2);
        memcpy(r2, t->root, 32);
        r2[b / 8] ^= 0x80 >> (b % 8);
        one(raw, len, key, r2);
      }
      for (o = 0; o < NTREES; o++) {
        struct tree *q = tree(o);
        for (b = 0; b < q->u.nk; b++) {
          mut(t, raw, len, q->u.key[b]);
          mut(q, raw, len, q->u.key[b]);
        }
        mut(q, raw, len, key);
        mc_slow();
      }
      memset(r2, 0, 32);
      both(raw, len, key, r2);
      break;
    }
    case 6: { /* splices of two proofs */
      int o;
      for (o = 0; o < 8; o++) {
        int kk = pick_key(t, o);
        if (kk < 0 || kk == k)
          continue;
        wl = ref_prove(t->r, t->nr, t->u.key[kk], w);
        for (i = 0; i <= len; i++) {
          for (j = 0; j <= wl; j++) {
            if (len + wl > 600 && j != i && j + len != i + wl && !(i <= 4 && j <= 4))
              continue;
            memcpy(m, raw, i);
            memcpy(m + i, w + j, wl - j);
            mut(t, m, i + wl - j, key);
          }
          mc_slow();
        }
      }
      break;
    }
    case 7: { /* one bit anywhere together with another in the head */
      size_t step = len > 300 ? (mc_thorough ? 1 : 7) : 1;
      for (i = 0; i < 8 * (len < 8 ? len : 8); i++)
        for (j = i + 1; j < 8 * len; j += j < 512 ? 1 : step) {
          memcpy(m, raw, len);
          m[i / 8] ^= 0x80 >> (i % 8);
          m[j / 8] ^= 0x80 >> (j % 8);
          mut(t, m, len, key);
          mc_slow();
        }
      break;
    }
  }
  mc_count(0, seen_ok);
  if (mc_want_sample())
    mc_sample("tree %ld key %d class %d: %zu byte proof", item / (NKEYS * NCLASS), k, cl, len);
}
PART(c04_mutate, "C04", "c04-mutate", mutate_items, mutate_run,
  "genuine proofs of 14 trees (up to 256 levels): every byte replaced by every value, every header, every truncation, extension, deletion, insertion, splice, bit pair, other key and other root; against the tree's root and the root the bytes fold to",
  {"accepted"}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Short strings                                                        */
/* ------------------------------------------------------------------ */

static long short_items(void) { return 256 + 256; }

static void
short_run(long item) {
  static const uint8_t zero[32];
  static const int dep[] = {0, 1, 2, 8, 127, 128, 254, 255, 256, 257, 511, 512, 16383};
  static const int cnt[] = {0, 1, 2, 7, 8, 9, 16, 255, 256, 257, 258, 264, 512, 65535};
  static const uint8_t fill[] = {0, 1, 0x80, 0x81, 0xff};
  static uint8_t m[12000];
  uint8_t key[32], h[32];
  int a, b, i, n;
  memset(key, 0x80, 32);
  seen_ok = 0;
  if (item < 256) {
    m[0] = item;
    if (item == 0)
      both(m, 0, key, zero);
    both(m, 1, key, zero);
    for (a = 0; a < 256; a++) {
      m[1] = a;
      both(m, 2, key, zero);
      for (b = 0; b < 256; b++) {
        m[2] = b;
        both(m, 3, key, zero);
        for (i = 0; i < (mc_thorough ? 256 : 4); i++) {
          m[3] = mc_thorough ? i : (i & 1) * 254 + (i >> 1);
          both(m, 4, key, zero);
        }
        mc_slow();
      }
    }
    mc_state(item);
    return;
  }
  /* headers with bodies of every length of a constant */
  item -= 256;
  for (a = 0; a < (int)(ARRAY_SIZE(dep) * ARRAY_SIZE(cnt) * 4); a++) {
    int w = dep[a % ARRAY_SIZE(dep)] | (a / (int)(ARRAY_SIZE(dep) * ARRAY_SIZE(cnt))) << 14;
    int c = cnt[a / ARRAY_SIZE(dep) % ARRAY_SIZE(cnt)];
    if (a % 256 != item)
      continue;
    for (b = 0; b < (int)sizeof(fill); b++) {
      memset(m, fill[b], sizeof(m));
      m[0] = w & 255;
      m[1] = w >> 8;
      m[2] = c & 255;
      m[3] = c >> 8;
      memset(h, fill[b], 32);
      for (n = 4; n < (int)sizeof(m); n += n < 1400 || mc_thorough ? 1 : 32) {
        one(m, n, key, h);
        if (n < 300)
          both(m, n, h, zero);
        mc_slow();
      }
    }
    mc_state(70000 + a);
  }
  mc_count(0, seen_ok);
}
PART(c04_short, "C04", "c04-short", short_items, short_run,
  "every string of up to three bytes (thorough: four); headers with every type and edge depths and counts followed by constant bodies of every length",
  {"accepted"}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Structured proofs                                                    */
/* ------------------------------------------------------------------ */

static long gram_items(void) { return 4 * 10 * 4; }

/* Prefix encodings: returns bytes written; 0: no prefix. */
#define NPRE 14
static int
enc_prefix(uint8_t *o, int id, const uint8_t *key, int depth) {
  int i;
  switch (id) {
    case 0: return 0;
    case 1: o[0] = 1; o[1] = key_bit(key, depth & 255) << 7; return 2;
    case 2: o[0] = 1; o[1] = !key_bit(key, depth & 255) << 7; return 2;
    case 3: o[0] = 1; o[1] = (key_bit(key, depth & 255) << 7) | 1; return 2;
    case 4: o[0] = 0; return 1;
    case 5: o[0] = 0x80; o[1] = 1; o[2] = key_bit(key, depth & 255) << 7; return 3;
    case 6: o[0] = 0x80; o[1] = 0x80; memset(o + 2, 0, 16); return 18;
    case 7: o[0] = 0x81; o[1] = 0; memset(o + 2, 0x80, 32); return 34;
    case 8: o[0] = 0x81; o[1] = 1; memset(o + 2, 0, 33); return 35;
    case 9: o[0] = 0x7f; memset(o + 1, 0x80, 16); return 17;
    case 10: o[0] = 0xff; o[1] = 0xff; memset(o + 2, 0, 32); return 34;
    case 11:
      o[0] = 9;
      o[1] = o[2] = 0;
      for (i = 0; i < 9; i++)
        if (key_bit(key, (depth + i) & 255))
          o[1 + i / 8] |= 0x80 >> (i % 8);
      return 3;
    case 12: o[0] = 2; o[1] = (key_bit(key, depth & 255) << 7) | (key_bit(key, (depth + 1) & 255) << 6); return 2;
    default: o[0] = 0x80; o[1] = 0xff; memset(o + 2, 0, 32); memcpy(o + 2, key, 32); return 34;
  }
}

static void
gram_run(long item) {
  static const int deps[10] = {0, 1, 2, 3, 4, 10, 12, 128, 255, 256};
  static const uint8_t hs[3][32] = {{0}, {1, 2, 3}, {0xff, 0x80}};
  static uint8_t m[3000];
  static const uint8_t zero[32];
  int type = item / 40, depth = deps[item / 4 % 10], cnt = item % 4;
  int pre[3], i, tail, t, ki, n, total, combos = 1, c;
  uint8_t keys[3][32];
  memset(keys[0], 0, 32);
  memset(keys[1], 0x80, 32);
  memset(keys[2], 0xff, 32);
  seen_ok = 0;
  for (i = 0; i < cnt; i++)
    combos *= NPRE;
  for (ki = 0; ki < 3; ki++) {
    const uint8_t *key = keys[ki];
    for (c = 0; c < combos; c++) {
      int ntail = type == 0 ? 2 : type == 1 ? NPRE * 2 : type == 2 ? 6 : 9;
      t = c;
      for (i = 0; i < cnt; i++) {
        pre[i] = t % NPRE;
        t /= NPRE;
      }
      for (tail = 0; tail < ntail; tail++) {
        int d = 0, hv;
        if (cnt == 3 && !mc_thorough && tail % 3)
          continue;
        m[0] = depth & 255;
        m[1] = depth >> 8 | type << 6;
        m[2] = cnt;
        m[3] = 0;
        n = 4;
        if (cnt) {
          m[4] = 0;
          n = 5;
          for (i = 0; i < cnt; i++) {
            int e = enc_prefix(m + n, pre[i], key, d);
            if (e) {
              m[4] |= 0x80 >> i;
              d += pre[i] == 11 ? 9 : pre[i] == 12 ? 2 : 1;
            }
            n += e;
            d += 1;
            hv = (pre[i] + i + tail) % 3;
            memcpy(m + n, hs[hv], 32);
            n += 32;
          }
        }
        switch (type) {
          case 0:
            if (tail)
              m[n++] = 0;
            break;
          case 1:
            n += enc_prefix(m + n, tail % NPRE, key, depth);
            memcpy(m + n, hs[tail % 3], 32);
            memcpy(m + n + 32, hs[1], 32);
            n += 64;
            if (tail >= NPRE)
              n -= 1;
            break;
          case 2:
            memcpy(m + n, keys[tail % 3], 32);
            memcpy(m + n + 32, hs[1], 32);
            n += 64;
            if (tail >= 3)
              n += 1;
            break;
          default: {
            static const int sz[9] = {0, 1, 2, 255, 256, 1022, 1023, 1024, 65535};
            m[n] = sz[tail] & 255;
            m[n + 1] = sz[tail] >> 8;
            memset(m + n + 2, 0x44, 1025);
            n += 2 + (sz[tail] > 1025 ? 1025 : sz[tail]);
            break;
          }
        }
        total = n;
        both(m, total, key, zero);
        if (c % 7 == 0)
          both(m, total - 1, key, zero);
        mc_slow();
      }
      mc_state(mc_hash(item * 3 + ki, pre, sizeof(int) * cnt));
    }
  }
  mc_count(0, seen_ok);
}
PART(c04_grammar, "C04", "c04-grammar", gram_items, gram_run,
  "structured proofs: every type, edge depths, up to three nodes with 14 prefix encodings each (minimal, non-minimal, oversized, zero, dirty padding, matching and not), every tail class, three keys; against zero and the root they fold to",
  {"accepted"}, FL_ASAN, 0);
