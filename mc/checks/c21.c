/* C21 - damaged files */
#include "damage.h"

/* ------------------------------------------------------------------ */
/* One byte (thorough: also every value)                                */
/* ------------------------------------------------------------------ */

#define CHUNK 8
static int byte_imgs(void) { return dimg_count(); }

static long
chunks_of(const struct dimg *d) {
  long n = 0;
  int f;
  for (f = 0; f <= d->nf; f++)
    n += (d->size[f] + CHUNK - 1) / CHUNK;
  return n;
}

/* An upper bound that needs no image: the images' sizes are not known before
   the library has written them. */
#define MAXCHUNK 1000

static int
find_chunk(const struct dimg *d, long c, int *file, long *off) {
  int f;
  for (f = 0; f <= d->nf; f++) {
    long n = (d->size[f] + CHUNK - 1) / CHUNK;
    if (c < n) {
      *file = f;
      *off = c * CHUNK;
      return 1;
    }
    c -= n;
  }
  return 0;
}

long dmg_byte_items(void) { return (long)byte_imgs() * MAXCHUNK; }
void
dmg_byte_run(long item) {
  int im = item / MAXCHUNK, f, c, order;
  const struct dimg *d = dimg_get(im);
  char path[300], s[160];
  long off;
  uint8_t *p, old, val;
  size_t len;
  if (chunks_of(d) > MAXCHUNK)
    mc_internal("image of %ld chunks", chunks_of(d));
  if (!find_chunk(d, item % MAXCHUNK, &f, &off))
    mc_prune();
  off += mc_choose(CHUNK);
  if (off >= d->size[f])
    mc_prune();
  dimg_load(d);
  dimg_path(path, sizeof(path), f);
  p = fs_data(path, &len);
  old = p[off];
  if (mc_thorough) {
    c = mc_choose(255);
    val = old ^ (c + 1);
    order = 0;
  } else {
    c = mc_choose(10);
    val = c < 8 ? old ^ (1 << c) : c == 8 ? 0 : 255;
    order = c % 2;
    if ((c == 8 && (old & (old - 1)) == 0) || (c == 9 && ((uint8_t)~old & ((uint8_t)~old - 1)) == 0))
      mc_prune(); /* no change, or one of the above */
  }
  p[off] = val;
  snprintf(s, sizeof(s), "byte %ld of %s changed from %02x to %02x", off, path, old, val);
  dmg_run(d, order, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
#define CNT {"openable", "root gone", "unclear", "open refused", "old root refused"}
PART(c21_byte, "C21", "c21-byte", dmg_byte_items, dmg_byte_run,
  "every byte of every file of seven databases with every single bit flipped, zeroed and set (thorough: every other value), then opened, every key read, proved and iterated under every root, changed and committed; what hashes still vouch for must be answered exactly",
  CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Cut short                                                            */
/* ------------------------------------------------------------------ */

#define MAXF 14
#define CUTCH 16
long dmg_cut_items(void) { return (long)dimg_count() * MAXF; }
void
dmg_cut_run(long item) {
  int im = item / MAXF, f = item % MAXF, a, b;
  const struct dimg *d = dimg_get(im);
  char path[300], s[160];
  long n;
  if (f > d->nf)
    mc_prune();
  a = mc_choose(d->size[f] / CUTCH + 1);
  b = mc_choose(CUTCH);
  n = (long)a * CUTCH + b;
  if (n >= d->size[f])
    mc_prune();
  dimg_load(d);
  dimg_path(path, sizeof(path), f);
  fs_truncate(path, n);
  snprintf(s, sizeof(s), "%s cut to %ld of %ld bytes", path, n, d->size[f]);
  dmg_run(d, n % 2, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
PART(c21_cut, "C21", "c21-cut", dmg_cut_items, dmg_cut_run,
  "every file of seven databases cut to every length", CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Extended                                                             */
/* ------------------------------------------------------------------ */

static long grow_items(void) { return (long)dimg_count() * MAXF; }
static void
grow_run(long item) {
  int im = item / MAXF, f = item % MAXF, how, n, i;
  const struct dimg *d = dimg_get(im);
  static uint8_t b[12000];
  char path[300], s[160];
  long len, pad;
  if (f > d->nf)
    mc_prune();
  dimg_load(d);
  dimg_path(path, sizeof(path), f);
  len = d->size[f];
  memcpy(b, d->data[f], len);
  how = mc_choose(5);
  pad = (38 - len % 38) % 38;
  switch (how) {
    case 0:
    case 1:
      n = 1 + mc_choose(80);
      memset(b + len, how ? 255 : 0, n);
      len += n;
      snprintf(s, sizeof(s), "%d bytes %d appended to %s", n, how ? 255 : 0, path);
      break;
    case 2: /* a whole number of records */
      n = mc_choose(3) * 38 + 38;
      memset(b + len, 0, pad + n);
      len += pad + n;
      snprintf(s, sizeof(s), "zeros for %d records appended to %s", n / 38, path);
      break;
    case 3: /* a genuine commit record, aligned */
      i = mc_choose(d->nc);
      memset(b + len, 0, pad);
      memcpy(b + len + pad, d->data[d->com[i].rec.index] + d->com[i].rec.pos, 38);
      len += pad + 38;
      snprintf(s, sizeof(s), "a copy of the record of commit %d appended to %s", i, path);
      break;
    default: /* the same, not aligned */
      i = mc_choose(d->nc);
      n = 1 + mc_choose(37);
      memset(b + len, 0, pad + n);
      memcpy(b + len + pad + n, d->data[d->com[i].rec.index] + d->com[i].rec.pos, 38);
      len += pad + n + 38;
      snprintf(s, sizeof(s), "a misplaced copy of the record of commit %d appended to %s", i, path);
      break;
  }
  fs_write(path, b, len);
  dmg_run(d, how % 2, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
PART(c21_grow, "C21", "c21-grow", grow_items, grow_run,
  "every file of seven databases extended by 1 to 80 zero or set bytes, by empty records, and by copies of genuine commit records, aligned and misplaced",
  CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Ranges lost                                                          */
/* ------------------------------------------------------------------ */

static long range_items(void) { return (long)dimg_count() * MAXF; }
static void
range_run(long item) {
  int im = item / MAXF, f = item % MAXF, a, n, how;
  const struct dimg *d = dimg_get(im);
  char path[300], s[160];
  long i, lo, hi, stride;
  uint8_t *p;
  size_t len;
  if (f > d->nf)
    mc_prune();
  stride = f == 0 ? 4 : d->size[f] > 2000 && !mc_thorough ? 64 : mc_thorough ? 8 : 19;
  n = (d->size[f] + stride - 1) / stride;
  a = mc_choose(n);
  lo = a * stride;
  hi = lo + (1 + mc_choose(n - a)) * stride;
  how = mc_choose(3);
  if (hi > d->size[f])
    hi = d->size[f];
  dimg_load(d);
  dimg_path(path, sizeof(path), f);
  p = fs_data(path, &len);
  if (how < 2) {
    memset(p + lo, how ? 255 : 0, hi - lo);
    snprintf(s, sizeof(s), "bytes %ld to %ld of %s overwritten with %d", lo, hi, path, how ? 255 : 0);
  } else {
    /* the bytes are missing, what follows moves up */
    memmove(p + lo, p + hi, len - hi);
    fs_truncate(path, len - (hi - lo));
    snprintf(s, sizeof(s), "bytes %ld to %ld of %s taken out", lo, hi, path);
  }
  i = (lo / stride) % 2;
  dmg_run(d, i, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
PART(c21_range, "C21", "c21-range", range_items, range_run,
  "every range of bytes on a grid in every file of seven databases zeroed, set, or taken out", CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Whole files                                                          */
/* ------------------------------------------------------------------ */

#define NWHOLE 12
long dmg_file_items(void) { return (long)dimg_count() * NWHOLE; }
void
dmg_file_run(long item) {
  int im = item / NWHOLE, how = item % NWHOLE, f, g;
  const struct dimg *d = dimg_get(im);
  char path[300], to[300], s[400];
  dimg_load(d);
  f = mc_choose(d->nf + 1);
  dimg_path(path, sizeof(path), f);
  switch (how) {
    case 0:
      fs_unlink(path);
      snprintf(s, sizeof(s), "%s missing", path);
      break;
    case 1:
      fs_unlink(path);
      fs_mkdir(path);
      snprintf(s, sizeof(s), "%s a directory", path);
      break;
    case 2: /* swapped with another */
      g = mc_choose(d->nf + 1);
      if (g <= f)
        mc_prune();
      dimg_path(to, sizeof(to), g);
      fs_write(path, d->data[g], d->size[g]);
      fs_write(to, d->data[f], d->size[f]);
      snprintf(s, sizeof(s), "%s and %s swapped", path, to);
      break;
    case 3: /* overwritten by a copy of another */
      g = mc_choose(d->nf + 1);
      if (g == f)
        mc_prune();
      fs_write(path, d->data[g], d->size[g]);
      dimg_path(to, sizeof(to), g);
      snprintf(s, sizeof(s), "%s a copy of %s", path, to);
      break;
    case 4: /* one more file: a copy */
    case 5: /* empty */
    case 6: /* leaving a gap */
      dimg_path(to, sizeof(to), d->nf + 1 + (how == 6));
      fs_write(to, d->data[f], how == 5 ? 0 : d->size[f]);
      snprintf(s, sizeof(s), "%s added, %s", to, how == 5 ? "empty" : path);
      break;
    case 7: /* moved to another number */
      g = d->nf + 1 + mc_choose(2);
      dimg_path(to, sizeof(to), g);
      fs_unlink(path);
      fs_write(to, d->data[f], d->size[f]);
      snprintf(s, sizeof(s), "%s moved to %s", path, to);
      break;
    case 8: /* names that are nearly those of data files */
    {
      static const char *const names[] = {"0000000000", "4294967295", "4294967296", "9999999999", "00000000001", "000000001",
                                          "000000000x", "0000000001.bak", "1", " 000000001", "+000000001", "-000000001", "0000000001 "};
      g = mc_choose(ARRAY_SIZE(names));
      snprintf(to, sizeof(to), "%s/%s", db_path, names[g]);
      fs_write(to, d->data[f], d->size[f]);
      snprintf(s, sizeof(s), "%s added", to);
      break;
    }
    case 9: /* a link to itself, to nowhere, to another */
      g = mc_choose(3);
      fs_unlink(path);
      dimg_path(to, sizeof(to), g == 0 ? f : g == 1 ? d->nf + 5 : (f + 1) % (d->nf + 1));
      fs_symlink(to, path);
      snprintf(s, sizeof(s), "%s a link to %s", path, to);
      break;
    case 10: /* the lock file */
      snprintf(to, sizeof(to), "%s/lock", db_path);
      g = mc_choose(2);
      if (f > 0)
        mc_prune();
      if (g)
        fs_mkdir(to);
      else
        fs_write(to, d->data[1], 10);
      snprintf(s, sizeof(s), "%s %s", to, g ? "a directory" : "left behind with contents");
      break;
    default: /* all data files shifted by one */
      if (f > 0)
        mc_prune();
      for (g = 1; g <= d->nf; g++) {
        dimg_path(to, sizeof(to), g + 1);
        fs_write(to, d->data[g], d->size[g]);
      }
      snprintf(s, sizeof(s), "every data file moved up by one");
      break;
  }
  if (how == 1 || how == 9 || (how == 10)) {
    /* the oracle looks at regular files only: these are judged by hand */
    urkel_t *db;
    int ok, i;
    uint8_t root[32], z[32] = {0};
    urkel_errno = 0;
    db = urkel_open(db_path);
    if (db == NULL) {
      if (urkel_errno == 0)
        mc_fail("%s: open fails without an error", s);
      if (how == 10 && !fs_exists("/w/db/lock"))
        mc_fail("%s: open fails and removes it", s);
      if (how == 10 && s[strlen(s) - 1] == 's')
        mc_fail("%s: open fails with error %d", s, urkel_errno);
    } else {
      urkel_root(db, root);
      ok = memcmp(root, z, 32) == 0;
      for (i = 0; i < d->nc; i++)
        ok |= memcmp(root, d->com[i].root, 32) == 0;
      if (!ok)
        mc_fail("%s: the database shows a root that was never committed", s);
      for (i = 0; i < d->u.nk; i++) {
        uint8_t *buf = malloc(1023);
        size_t len;
        urkel_get(db, buf, &len, d->u.key[i], NULL);
        free(buf);
      }
      for (i = 0; i < d->nc; i++)
        urkel_has(db, d->u.key[0], d->com[i].root);
      urkel_insert(db, d->u.key[0], d->u.val[0], d->u.len[0]);
      urkel_close(db);
    }
    mc_trans(2);
    mc_state(env_fs_hash());
  } else {
    dmg_run(d, how % 2, s);
  }
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
PART(c21_file, "C21", "c21-file", dmg_file_items, dmg_file_run,
  "files of seven databases missing, swapped, copied over one another, added, moved, renumbered, or replaced by directories and links", CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Pointers                                                             */
/* ------------------------------------------------------------------ */

static void
put_ptr(uint8_t *p, struct ptr v) {
  unsigned a = v.index << 1 | (v.size >> 9 & 1);
  uint32_t b = v.pos << 1 | (v.size >> 8 & 1);
  p[0] = a;
  p[1] = a >> 8;
  p[2] = b;
  p[3] = b >> 8;
  p[4] = b >> 16;
  p[5] = b >> 24;
  p[6] = v.size;
}

/* The substitutions for a pointer; returns how many there are. */
static int
subst(const struct dimg *d, struct ptr old, int which, struct ptr *out) {
  static const unsigned sz[] = {0, 1, 2, 39, 40, 41, 78, 79, 80, 111, 112, 113, 255, 256, 512, 1022, 1023};
  static const unsigned ix[] = {0, 1, 2, 3, 4, 5, 0x4000, 0x7fff};
  int n = 0, i;
  struct ptr p;
#define CASE(...) do { if (n++ == which) { p = old; __VA_ARGS__; *out = p; } } while (0)
  for (i = 0; i < d->nptr; i++)
    CASE(p = ref_ptr(d->data[d->pf[i].file] + d->pf[i].off));
  for (i = 0; i < d->nc; i++) {
    CASE(p.index = d->com[i].rec.index; p.pos = d->com[i].rec.pos; p.size = 38);
    CASE(p.index = d->com[i].rec.index; p.pos = d->com[i].rec.pos);
  }
  for (i = 0; i < (int)ARRAY_SIZE(sz); i++)
    CASE(p.size = sz[i]);
  for (i = 0; i < (int)ARRAY_SIZE(ix); i++)
    CASE(p.index = ix[i]);
  CASE(p.pos += 1);
  CASE(p.pos -= 1);
  CASE(p.pos += 38);
  CASE(p.pos -= 38);
  CASE(p.pos = 0);
  CASE(p.pos = d->size[old.index <= (unsigned)d->nf ? old.index : 1] - 1);
  CASE(p.pos = d->size[old.index <= (unsigned)d->nf ? old.index : 1]);
  CASE(p.pos = d->size[old.index <= (unsigned)d->nf ? old.index : 1] - (long)old.size);
  CASE(p.pos = 0x7fffffff);
  CASE(p.pos = 0x7fffffff - old.size);
  CASE(p.pos = 0x40000000);
  return n;
}

#define MAXPTR 160
long dmg_ptr_items(void) { return (long)dimg_count() * MAXPTR; }
void
dmg_ptr_run(long item) {
  int im = item / MAXPTR, i = item % MAXPTR, n, w;
  const struct dimg *d = dimg_get(im);
  char path[300], s[300];
  struct ptr old, now;
  uint8_t *p;
  size_t len;
  if (d->nptr > MAXPTR)
    mc_internal("image with %d pointers", d->nptr);
  if (i >= d->nptr)
    mc_prune();
  old = ref_ptr(d->data[d->pf[i].file] + d->pf[i].off);
  now = old;
  n = subst(d, old, -1, &now);
  w = mc_choose(n);
  subst(d, old, w, &now);
  now.pos &= 0x7fffffff;
  if (memcmp(&now, &old, sizeof(now)) == 0)
    mc_prune();
  dimg_load(d);
  dimg_path(path, sizeof(path), d->pf[i].file);
  p = fs_data(path, &len);
  put_ptr(p + d->pf[i].off, now);
  if (d->pf[i].kind >= 2)
    dmg_reseal(d, d->pf[i].file, d->pf[i].off - (d->pf[i].kind == 2 ? 4 : 11));
  snprintf(s, sizeof(s), "pointer %d (kind %d) at byte %ld of %s changed from %u:%u+%u to %u:%u+%u", i, d->pf[i].kind,
           d->pf[i].off, path, old.index, old.pos, old.size, now.index, now.pos, now.size);
  dmg_run(d, w % 2, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
PART(c21_ptr, "C21", "c21-ptr", dmg_ptr_items, dmg_ptr_run,
  "every pointer in seven databases (children, values, previous record, root; records with their checksum recomputed) replaced by every other pointer in it, by pointers to the commit records, and by impossible files, places and sizes",
  CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Two bytes (thorough) of the structure                                */
/* ------------------------------------------------------------------ */

/* The type, prefix and pointer bytes of the nodes, not the hashes. */
static int
structural(const struct dimg *d, int *file, long *off, int which) {
  int i, j, n = 0;
  for (i = 0; i < d->nptr; i++) {
    struct ptr t = ref_ptr(d->data[d->pf[i].file] + d->pf[i].off);
    if (d->pf[i].kind >= 2 && d->pf[i].kind != 3)
      continue;
    if (d->pf[i].kind != 3)
      for (j = 0; j < 7; j++)
        if (n++ == which) {
          *file = d->pf[i].file;
          *off = d->pf[i].off + j;
        }
    if (d->pf[i].kind == 1 || t.index == 0)
      continue;
    /* first bytes of the node pointed at */
    for (j = 0; j < 3; j++)
      if (n++ == which) {
        *file = t.index;
        *off = t.pos + j;
      }
  }
  return n;
}

static long
two_items(void) {
  return (mc_thorough ? 5 : 3) * 200;
}
static void
two_run(long item) {
  int im = item / 200, a = item % 200, b, n, f[2] = {0, 0}, k, c[2];
  long o[2] = {0, 0};
  const struct dimg *d = dimg_get(im);
  char path[300], s[300];
  size_t len;
  n = structural(d, &f[0], &o[0], a);
  if (a >= n)
    mc_prune();
  b = mc_choose(n);
  if (b <= a)
    mc_prune();
  structural(d, &f[1], &o[1], b);
  if (f[0] == f[1] && o[0] == o[1])
    mc_prune();
  dimg_load(d);
  for (k = 0; k < 2; k++) {
    static const uint8_t q[] = {0x01, 0x80, 0xff}, t[] = {0x01, 0x03, 0x10, 0x40, 0x80, 0xff, 0x11, 0x02};
    uint8_t *p;
    c[k] = mc_choose(mc_thorough ? (int)sizeof(t) : (int)sizeof(q));
    dimg_path(path, sizeof(path), f[k]);
    p = fs_data(path, &len);
    p[o[k]] ^= mc_thorough ? t[c[k]] : q[c[k]];
  }
  snprintf(s, sizeof(s), "bytes %d:%ld and %d:%ld changed in ways %d and %d", f[0], o[0], f[1], o[1], c[0], c[1]);
  dmg_run(d, (c[0] + c[1]) % 2, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(im), s);
}
PART(c21_two, "C21", "c21-two", two_items, two_run,
  "every pair of bytes of node types, prefix sizes and pointers in three databases changed in three ways each (thorough: five databases, eight ways)", CNT, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Nodes of every shape                                                 */
/* ------------------------------------------------------------------ */

/* A node written for the purpose takes the place of a genuine one: type byte,
   prefix size and length all vary, followed by enough bytes for any of them,
   and by one more commit record. */
static const int node_im[] = {0, 3, 6};
static long node_items(void) { return 3L * MAXPTR; }
static void
node_run(long item) {
  static const unsigned s8[] = {0, 1, 2, 7, 8, 9, 127, 128, 247, 248, 249, 254, 255};
  static const unsigned s16[] = {0, 1, 8, 255, 256, 257, 258, 263, 264, 265, 272, 288, 320, 511, 512, 513, 1000,
                                 4096, 7560, 7576, 0x7fff, 0x8000, 0xfff8, 0xffff};
  static const uint8_t ty[] = {0x00, 0x10, 0x03, 0x04, 0x0f, 0x33, 0xff, 0x02, 0x12, 0x22, 0x32, 0xf2};
  static uint8_t b[12000];
  const struct dimg *d;
  char path[300], s[200];
  struct ptr old, now;
  uint8_t *q, *rec, *p0;
  const uint8_t *src = NULL, *g;
  unsigned type, size = 0, bytes = 0, len, i, ls, f;
  size_t fl;
  long at, o;
  int k = item % MAXPTR, e;
  if (!mc_thorough && item / MAXPTR == 2)
    mc_prune();
  d = dimg_get(node_im[item / MAXPTR]);
  if (k >= d->nptr || (d->pf[k].kind != 0 && d->pf[k].kind != 3))
    mc_prune();
  old = ref_ptr(d->data[d->pf[k].file] + d->pf[k].off);
  if (old.index == 0)
    mc_prune();
  e = mc_choose(16 + (int)sizeof(ty));
  type = e < 16 ? (unsigned)e << 4 | 1 : ty[e - 16];
  ls = mc_choose(5);
  if (type & 0x10) {
    if (type & 0x20)
      size = s16[mc_choose(ARRAY_SIZE(s16))];
    else
      size = s8[mc_choose(ARRAY_SIZE(s8))];
  }
  f = d->nf;
  len = d->size[f];
  memcpy(b, d->data[f], len);
  at = len;
  q = b + at;
  /* what a genuine one has */
  g = d->data[old.index] + old.pos;
  for (i = 0; (int)i < d->nptr && src == NULL; i++)
    if (d->pf[i].kind == 0 && d->pf[i].file == (int)old.index && d->pf[i].off >= (long)old.pos
        && d->pf[i].off < (long)(old.pos + old.size))
      src = d->data[old.index] + d->pf[i].off;
  if ((g[0] & 15) != 1)
    src = NULL;
  *q++ = type;
  if ((type & 15) == 2) {
    memcpy(q, g + 1, 39);
    q += 39;
    if ((g[0] & 15) != 2)
      memset(q - 39, 1, 7);
  } else {
    if (type & 0x10) {
      *q++ = size;
      if (type & 0x20)
        *q++ = size >> 8;
    }
    bytes = (size + 7) / 8;
    for (i = 0; i < bytes && i < 1100; i++)
      *q++ = i < 32 ? d->u.key[0][i] : 0xa5 + i;
    p0 = q;
    for (i = 0; i < 2; i++, q += 39) {
      if (src != NULL) {
        memcpy(q, src + i * 39, 39);
      } else {
        memcpy(q, d->data[d->pf[k].file] + d->pf[k].off, 7); /* itself, then */
        memset(q + 7, 0x11, 32);
      }
    }
    (void)p0;
  }
  now = old;
  now.index = f;
  now.pos = at;
  now.size = q - (b + at);
  if (now.size > 1022)
    now.size = 1022;
  switch (ls) {
    case 1: now.size -= 1; break;
    case 2: now.size += 1; break;
    case 3: now.size = 1023; break;
    case 4: now.size = 79; break;
  }
  while (q < b + at + 1100)
    *q++ = 0x5a ^ (q - b);
  o = ((q - b) + 37) / 38 * 38;
  memset(q, 0, b + o - q);
  rec = b + o;
  memcpy(rec, d->data[d->com[d->nc - 1].rec.index] + d->com[d->nc - 1].rec.pos, 38);
  /* previous: the newest so far */
  put_ptr(rec + 4, d->com[d->nc - 1].rec);
  rec[4 + 6] = 38;
  ref_blake2b(rec + 18, 20, d->data[0], 32, rec, 18);
  dimg_load(d);
  dimg_path(path, sizeof(path), f);
  fs_write(path, b, o + 38);
  snprintf(s, sizeof(s), "pointer %d (kind %d) leads to a node of type %02x, prefix %u, %u bytes", k, d->pf[k].kind, type, size, now.size);
  dimg_path(path, sizeof(path), d->pf[k].file);
  q = fs_data(path, &fl);
  put_ptr(q + d->pf[k].off, now);
  if (d->pf[k].kind == 3) {
    dmg_reseal(d, d->pf[k].file, d->pf[k].off - 11);
    if (d->pf[k].file == (int)d->com[d->nc - 1].rec.index && d->pf[k].off == (long)d->com[d->nc - 1].rec.pos + 11) {
      dimg_path(path, sizeof(path), f);
      q = fs_data(path, &fl);
      put_ptr(q + o + 11, now);
      dmg_reseal(d, f, o);
    }
  }
  dmg_run(d, (size + ls) % 2, s);
  if (mc_want_sample())
    mc_sample("%s: %s", dimg_name(node_im[item / MAXPTR]), s);
}
PART(c21_node, "C21", "c21-node", node_items, node_run,
  "every node pointer in two databases (thorough three) led to a node written for the purpose: every internal type byte and twelve others, 13 one-byte and 24 two-byte prefix sizes up to 65535, five lengths, followed by enough bytes for any of them",
  CNT, FL_ASAN, 0);
