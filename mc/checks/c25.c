/* C25 - stored data never passes for a commit record
 *
 * Recovery looks for the newest 38 bytes that are a commit record under the
 * database's own key.  Values are chosen by whoever uses the database: bytes
 * that look like a record must not be taken for one when a crash leaves them
 * as the newest data. */
#include "../mc.h"
#include <errno.h>

#define VLEN 1023
#define DB "/w/db"

static void
key_n(uint8_t *k, int i) {
  memset(k, 0, 32);
  k[0] = i << 6;
  k[31] = i;
}

static void
must(int ok, const char *what) {
  if (!ok)
    mc_fail("%s fails with error %d", what, urkel_errno);
}

static int
newest(void) {
  char p[64];
  int f;
  for (f = 1;; f++) {
    snprintf(p, sizeof(p), DB "/%010d", f);
    if (!fs_exists(p))
      return f - 1;
  }
}

/* A record (or not quite one) of some kind. */
#define KINDS 120
static const char *
forge(uint8_t *d, int kind, const uint8_t *key, const uint8_t *genuine) {
  static char what[100];
  uint8_t k[32];
  int i;
  memcpy(d, genuine, 38);
  memcpy(k, key, 32);
  if (kind == 0) {
    ref_blake2b(d + 18, 20, NULL, 0, d, 18);
    return "a record with an unkeyed checksum";
  }
  if (kind == 1) {
    uint8_t h[32];
    ref_blake2b(h, 32, NULL, 0, d, 18);
    memcpy(d + 18, h, 20);
    return "a record with a plain hash for checksum";
  }
  if (kind == 2) {
    uint8_t h[64];
    memcpy(h, key, 32);
    memcpy(h + 32, d, 18);
    ref_blake2b(d + 18, 20, NULL, 0, h, 50);
    return "a record whose checksum has the key prepended";
  }
  if (kind == 3) {
    memset(k, 0, 32);
    ref_blake2b(d + 18, 20, k, 32, d, 18);
    return "a record with an all-zero key";
  }
  if (kind == 4) {
    memset(d, 0, 38);
    return "zeros";
  }
  if (kind == 5) {
    memset(d, 0xff, 38);
    return "ones";
  }
  if (kind == 6) {
    memset(d + 18, 0, 20);
    return "a record with a zero checksum";
  }
  if (kind == 7) {
    memset(d + 4, 0, 14);
    memset(d + 18, 0, 20);
    return "a record of an empty database with a zero checksum";
  }
  if ((kind -= 8) < 32) {
    k[kind] ^= 1;
    ref_blake2b(d + 18, 20, k, 32, d, 18);
    snprintf(what, sizeof(what), "a record under a key differing in byte %d", kind);
    return what;
  }
  if ((kind -= 32) < 31) {
    i = kind + 1;
    ref_blake2b(d + 18, 20, k, i, d, 18);
    snprintf(what, sizeof(what), "a record under the first %d bytes of the key", i);
    return what;
  }
  if ((kind -= 31) < 38) {
    d[kind] ^= 0x10;
    snprintf(what, sizeof(what), "a genuine record with byte %d changed", kind);
    return what;
  }
  if ((kind -= 38) < 5) { /* the checksum of more or less */
    static const int n[] = {4, 11, 14, 17, 19};
    ref_blake2b(d + 18, 20, k, 32, d, n[kind]);
    snprintf(what, sizeof(what), "a record with the checksum of %d bytes", n[kind]);
    return what;
  }
  if ((kind -= 5) < 4) {
    static const int n[] = {16, 24, 32, 64};
    uint8_t h[64];
    ref_blake2b(h, n[kind], k, 32, d, 18);
    memcpy(d + 18, h, n[kind] < 20 ? n[kind] : 20);
    if (kind == 0)
      memset(d + 34, 0, 4);
    snprintf(what, sizeof(what), "a record with another length of hash (%d)", n[kind]);
    return what;
  }
  if (kind == 4) {
    ref_blake2b(d + 18, 20, k, 32, d + 4, 14);
    return "a record with the checksum of all but the magic number";
  }
  if (kind == 5) {
    uint8_t h[64];
    memcpy(h, d, 18);
    memcpy(h + 18, key, 32);
    ref_blake2b(d + 18, 20, NULL, 0, h, 50);
    return "a record whose checksum has the key appended";
  }
  return NULL;
}

static long forge_items(void) { return KINDS; }
static void
forge_run(long item) {
  uint8_t key[32], gen[38], rec[38], val[VLEN], k[32], v[VLEN], r0[32], r1[32], r[32];
  char file[64];
  const char *what;
  size_t n;
  long before, after, at, j;
  int phase = mc_choose(38), cutk = mc_choose(4), first = mc_choose(2), i;
  uint8_t *d;
  urkel_t *db;
  urkel_tx_t *tx;
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  must((db = urkel_open(DB)) != NULL, "opening");
  for (i = 0; i < (first ? 0 : 2); i++) {
    key_n(k, i);
    must(urkel_insert(db, k, (const uint8_t *)"old", 3), "insert");
    if (i == 0)
      urkel_root(db, r0);
  }
  urkel_root(db, r1);
  snprintf(file, sizeof(file), DB "/%010d", newest());
  before = fs_size(file);
  if (fs_read(DB "/meta", key, 32) != 32)
    mc_internal("no key file");
  if (first) {
    /* nothing is committed: a record of this key that points to itself */
    memset(gen, 0, 38);
    gen[0] = 0x6b;
    gen[1] = 0x72;
    gen[2] = 0x6d;
    gen[3] = 0x6d;
    ref_blake2b(gen + 18, 20, key, 32, gen, 18);
  } else {
    d = fs_data(file, &n);
    for (at = n / 38 * 38 - 38; at >= 0; at -= 38)
      if (ref_meta_ok(d + at, key))
        break;
    if (at < 38)
      mc_fail("no commit record in the file");
    for (at -= 38; at >= 0; at -= 38)
      if (ref_meta_ok(d + at, key))
        break;
    if (at < 0)
      mc_fail("no first commit record in the file");
    memcpy(gen, d + at, 38);
  }
  what = forge(rec, item, key, gen);
  if (what == NULL || ref_meta_ok(rec, key))
    mc_prune();
  for (j = 0; j < VLEN; j++)
    val[j] = rec[(j + phase) % 38];
  must((tx = urkel_tx_create(db, NULL)) != NULL, "transaction");
  key_n(k, 2);
  must(urkel_tx_insert(tx, k, val, VLEN), "insert");
  must(urkel_tx_commit(tx), "commit");
  urkel_tx_root(tx, r);
  urkel_tx_destroy(tx);
  mc_trans(4);
  urkel_close(db);
  after = fs_size(file);
  d = fs_data(file, &n);
  for (at = before; at + VLEN <= after; at++)
    if (memcmp(d + at, val, VLEN) == 0)
      break;
  if (at + VLEN > after)
    mc_fail("the value is not found in the file");
  mc_trace("  %s at phase %d; file %ld before, value at %ld, %ld after", what, phase, before, at, after);
  if (cutk == 0) {       /* nothing of the commit's record was written */
    fs_truncate(file, after - 38);
  } else if (cutk == 1) { /* all but a byte */
    fs_truncate(file, after - 1);
  } else if (cutk == 2) { /* within the value */
    fs_truncate(file, at + VLEN / 2);
  }
  must((db = urkel_open(DB)) != NULL, "opening after a crash");
  urkel_root(db, v);
  if (memcmp(v, cutk == 3 ? r : r1, 32) != 0)
    mc_fail("a value of %s (phase %d) is taken for a commit after a crash", what, phase);
  for (i = 0; i < (first ? 0 : 2); i++) {
    key_n(k, i);
    must(urkel_get(db, v, &n, k, NULL), "get");
    if (n != 3 || memcmp(v, "old", 3) != 0)
      mc_fail("a wrong value is found");
  }
  key_n(k, 2);
  if (urkel_get(db, v, &n, k, NULL) != (cutk == 3))
    mc_fail("the value of an unfinished commit is %s", cutk == 3 ? "lost" : "there");
  if (cutk != 3) { /* done again */
    must(urkel_insert(db, k, val, VLEN), "insert");
    urkel_root(db, v);
    if (memcmp(v, r, 32) != 0)
      mc_fail("the root differs when it is done again");
  }
  urkel_close(db);
  must((db = urkel_open(DB)) != NULL, "opening");
  must(urkel_get(db, v, &n, k, NULL), "get");
  if (n != VLEN || memcmp(v, val, n) != 0)
    mc_fail("a wrong value is found");
  if (!first) {
    must(urkel_get(db, v, &n, (key_n(k, 0), k), r0), "reading an old root");
    urkel_root(db, v);
    if (memcmp(v, r, 32) != 0)
      mc_fail("the root is another one after reopening");
  }
  urkel_close(db);
  mc_trans(6);
  mc_state(item * 1000 + phase * 10 + cutk * 2 + first);
  if (mc_want_sample())
    mc_sample("%s, %d bytes off the grid, crash %d", what, phase, cutk);
}
PART(c25_forge, "C25", "c25-forge", forge_items, forge_run,
  "values made of any of 120 imitations of a commit record (unkeyed, other keys, parts of the key, other lengths, every byte of a genuine one changed) at all 38 offsets to the record grid, as the first or a later commit, with the crash at four places: the state shown is the last one committed",
  {NULL}, FL_ASAN, 0);

/* Every database has a key of its own. */
static int src_fails, src_n;
static void
on_sys(const struct sc *sc, struct act *a) {
  int rnd = sc->kind == SC_RANDOM || strncmp(sc->path, "/dev/", 5) == 0;
  if (!rnd)
    return;
  src_n += 1;
  if (src_fails == 1)
    a->err = sc->kind == SC_OPEN ? ENOENT : ENOSYS;
  else if (src_fails == 2 && sc->kind != SC_OPEN && sc->kind != SC_CLOSE)
    a->err = EIO;
  else if (src_fails == 3 && sc->kind == SC_OPEN && strcmp(sc->path, "/dev/urandom") == 0)
    a->err = ENOENT;
  else if (src_fails == 4 && (sc->kind == SC_READ || sc->kind == SC_RANDOM) && sc->len > 7)
    a->shortn = 7;
}

static void
make_key(uint8_t *key) {
  urkel_t *db;
  uint8_t k[32];
  fs_mkdir("/w");
  env_limits_fast();
  src_n = 0;
  env_hook = on_sys;
  must((db = urkel_open(DB)) != NULL, "creating a database");
  env_hook = NULL;
  key_n(k, 1);
  must(urkel_insert(db, k, k, 5), "insert");
  urkel_close(db);
  if (fs_read(DB "/meta", key, 32) != 32)
    mc_fail("there is no key file of 32 bytes");
}

static long key_items(void) { return 5; }
static void
key_run(long item) {
  uint8_t a[32], b[32], seen[32] = {0};
  int i, j, n = 0;
  long total;
  src_fails = item;
  env_reset();
  make_key(a);
  total = env_rnd_n;
  for (i = 1; i < 32; i++)
    if (a[i] != a[0])
      n = 1;
  if (!n)
    mc_fail("the key of a database is constant");
  /* Without the system's random numbers, at least the time makes a difference. */
  for (i = 0; (item == 1 || item == 2) && i < 24; i++) {
    env_reset();
    env_clock = i < 20 ? 1L << i : i * 1000000000L;
    make_key(b);
    if (memcmp(a, b, 32) == 0)
      mc_fail("two databases have the same key");
  }
  n = 0;
  if (item == 0 || item > 2) {
    if (total < 32)
      mc_fail("only %ld random bytes are asked for", total);
    for (i = 0; i < total; i++) {
      env_reset();
      env_rnd_flip = i;
      make_key(b);
      n += memcmp(a, b, 32) != 0;
      for (j = 0; j < 32; j++)
        seen[j] |= a[j] ^ b[j];
      mc_trans(2);
    }
    if (n < 32)
      mc_fail("the key depends on %d random bytes only", n);
    for (j = 0; j < 32; j++)
      if (seen[j] != 0xff)
        mc_fail("bits %02x of byte %d of the key depend on no random byte", 0xff & ~seen[j], j);
  }
  mc_state(item);
}
PART(c25_key, "C25", "c25-key", key_items, key_run,
  "every random byte changed, with the system's random numbers there, given in pieces, from the second device only or not at all (then 24 times of creation): the key differs",
  {NULL}, FL_ASAN, 0);
PART(c27_c25_key, "C27", "c27-key", key_items, key_run,
  "in the Windows port: " "every random byte changed, with the system's random numbers there, given in pieces, from the second device only or not at all (then 24 times of creation): the key differs", {NULL}, FL_WIN, 0);

/* The same in the WebAssembly ports. */
#ifdef MC_EMSC
static long port_items(void) { return 1; } /* (its source cannot fail) */
#else
static long port_items(void) { return 2; }
#endif
PART(c26_key, "C26", "c26-key", port_items, key_run,
  "every random byte changed, with the port's random numbers there or (WASI) not at all: the key of the database differs",
  {NULL}, FL_WASI | FL_EMSC, 0);
