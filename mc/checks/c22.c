/* C22 - formats */
#include "seq.h"
#include "shape.h"
#include "../wr.h"

/* ------------------------------------------------------------------ */
/* Databases written by someone else                                    */
/* ------------------------------------------------------------------ */

static const long limits[] = {0x7fffffff, 300, 133};
#define NLAY 288
static void
lay_make(struct wlay *l, int id) {
  memset(l, 0, sizeof(*l));
  l->order = id % 4;
  id /= 4;
  l->reuse = id % 2;
  id /= 2;
  l->share = id % 2;
  id /= 2;
  l->gap = id % 3 == 0 ? 0 : id % 3 == 1 ? 1 : 40;
  l->fill = id % 3;
  id /= 3;
  l->limit = limits[id % 3];
  id /= 3;
  l->early = id % 2;
}

static void
wkey(uint8_t *key, int i) {
  int j;
  for (j = 0; j < 32; j++)
    key[j] = i == 0 ? j * 7 + 1 : i == 1 ? 0 : 255;
}

static int
pow_i(int a, int b) {
  int r = 1;
  while (b-- > 0)
    r *= a;
  return r;
}

#define WK 3
#define WV 2
/* items: layout x first contents */
static long read_items(void) { return NLAY * 27L * (mc_thorough ? 8 : 1); }
static void
read_run(long item) {
  static struct universe u;
  static int made = -1;
  static struct wr w;
  struct wlay lay;
  struct model m;
  struct op o;
  struct rec r[MAXK];
  oc c;
  uint8_t key[32];
  int ui = item / (NLAY * 27L), n, i, k, x, tail;
  if (!mc_thorough)
    ui = (item / NLAY) % 8; /* spread over the universes */
  if (made != ui * 2 + mc_thorough) {
    ou_small(&u, ui, WK);
    made = ui * 2 + mc_thorough;
  }
  lay_make(&lay, item % NLAY);
  env_reset();
  env_limits_fast();
  urkel_verify_max_file_size = lay.limit;
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  wkey(key, item % 3);
  wr_begin(&w, db_path, &lay, key);
  x = (item / NLAY) % 27;
  n = 1 + mc_choose(2 + (mc_thorough && item % 3 == 0)); /* commits */
  for (i = 0; i < n; i++) {
    if (i > 0)
      x = mc_choose(27);
    memset(&c, -1, sizeof(c));
    for (k = 0; k < WK; k++)
      c.c[k] = x / pow_i(3, k) % 3 - 1;
    wr_commit(&w, r, ref_recs(&u, c.c, r));
    model_hist_add(&m, &c);
    m.disk = c;
    mc_trans(1);
  }
  tail = mc_thorough ? mc_choose(3) : (item + n) % 3;
  if (tail)
    wr_tail(&w, tail == 1 ? 5 : 45, tail == 1 ? 0x6c : 2);
  wr_end(&w);
  m.there = 1;
  memset(&o, 0, sizeof(o));
  o.kind = OP_OPEN;
  step(&R[0], &m, &o);
  observe(&R[0], &m, OBS_DB | OBS_HIST | OBS_PROOF | OBS_ITER);
  /* written on by the library, read again */
  o.kind = OP_INS;
  o.key = x % WK;
  o.val = 1;
  step(&R[0], &m, &o);
  o.kind = OP_REOPEN;
  step(&R[0], &m, &o);
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  observe_disk(&m, 0);
  mc_state(model_hash(&m) + item);
  db_end(&m);
  if (mc_want_sample())
    mc_sample("universe %s: %d commits, items in order %d, reuse %d, shared values %d, gaps of %d, files of %ld, new file per commit %d",
              ou_name(ui), n, lay.order, lay.reuse, lay.share, lay.gap, lay.limit, lay.early);
}
PART(c22_read, "C22", "c22-read", read_items, read_run,
  "every history of one or two commits over all contents of three keys and two values, written by an independent writer in 288 layouts (order of nodes and values, reuse, sharing, gaps, file sizes, a file per commit), with three tails of interrupted commits: opened, every root read, written on and read by the independent reader",
  {NULL}, FL_ASAN, 0);

/* Far into a file, and in files of high numbers: the widths of pointers. */
static const long edges[] = {0x100, 0x200, 0x8000, 0x10000, 0x20000, 0x800000, 0x1000000, 0x2000000, 0x40000000, 0x7f000000, 0x7ffff000};
static long far_items(void) { return ARRAY_SIZE(edges) * 40L; }
static void
far_go(struct wr *w, struct model *m, struct universe *u) {
  struct op o;
  struct rec r[MAXK];
  oc c;
  int k;
  memset(&c, -1, sizeof(c));
  c.c[0] = 0;
  c.c[1] = 1;
  c.c[3] = 0;
  wr_commit(w, r, ref_recs(u, c.c, r));
  model_hist_add(m, &c);
  m->disk = c;
  wr_end(w);
  m->there = 1;
  memset(&o, 0, sizeof(o));
  o.kind = OP_OPEN;
  step(&R[0], m, &o);
  observe(&R[0], m, OBS_DB | OBS_HIST);
  for (k = 0; k < 3; k++) {
    o.kind = k == 1 ? OP_REM : OP_INS;
    o.key = k == 0 ? 2 : k == 1 ? 0 : 4;
    o.val = k == 0;
    step(&R[0], m, &o);
    mc_trans(1);
  }
  o.kind = OP_REOPEN;
  step(&R[0], m, &o);
  observe(&R[0], m, OBS_DB | OBS_HIST | OBS_ITER);
  observe_disk(m, 0);
  db_end(m);
}

static void
far_begin(struct wr *w, struct model *m, struct universe *u, int reuse) {
  struct wlay lay = {0};
  struct rec r[MAXK];
  uint8_t key[32];
  oc c;
  lay.limit = 0x7ffff000;
  lay.reuse = reuse;
  env_reset();
  env_limits_fast();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(m, u);
  wkey(key, 0);
  wr_begin(w, db_path, &lay, key);
  memset(&c, -1, sizeof(c));
  c.c[0] = 0;
  c.c[1] = 1;
  wr_commit(w, r, ref_recs(u, c.c, r));
  model_hist_add(m, &c);
}

static void
far_run(long item) {
  static struct universe u;
  static struct wr w;
  struct model m;
  int e = item / 40;
  long at = edges[e] - (item % 40) * 24 - mc_choose(24) - 1 + 200;
  ou_small(&u, 0, 5);
  if (at <= 420 || (e == ARRAY_SIZE(edges) - 1 && at > edges[e]))
    mc_prune();
  far_begin(&w, &m, &u, mc_choose(2));
  wr_skip(&w, at);
  far_go(&w, &m, &u);
  mc_state(at);
  if (mc_want_sample())
    mc_sample("commits continued at byte %ld", at);
}
PART(c22_far, "C22", "c22-far", far_items, far_run,
  "commits by the independent writer and the library around every place where a pointer's width matters (byte 2^8 to 2^31 of a file) and around the shipped maximum of a file, at every byte offset within 960 bytes of it; built with the shipped limits",
  {NULL}, FL_STOCK, 0);

static const int nums[] = {2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 4095, 4096, 8191, 8192, 16383, 16384, 32740};
static long num_items(void) { return ARRAY_SIZE(nums); }
static void
num_run(long item) {
  static struct universe u;
  static struct wr w;
  struct model m;
  int split = mc_choose(4);
  ou_small(&u, 0, 5);
  far_begin(&w, &m, &u, split % 2);
  wr_skip_file(&w, nums[item]);
  if (split / 2) /* and on into the next one */
    urkel_verify_max_file_size = 300;
  far_go(&w, &m, &u);
  mc_state(nums[item] * 4 + split);
}
PART(c22_num, "C22", "c22-num", num_items, num_run,
  "commits in data files of high numbers (2 to 32740), continued by the library in the same and in further files", {NULL}, FL_ASAN, 60);

/* Values of every size and keys of every shape, in a single commit. */
static long shape_items(void) { return 1024; }
static void
shape_run(long item) {
  static struct universe u;
  static struct wr w;
  static const int bits[] = {0, 1, 7, 8, 9, 15, 16, 100, 127, 128, 200, 247, 248, 254, 255};
  uint8_t b[32], key[32];
  int8_t c[MAXK];
  struct rec r[MAXK];
  struct wlay lay;
  struct view v = {0};
  int i = mc_choose(ARRAY_SIZE(bits)), j = mc_choose(mc_thorough ? (int)ARRAY_SIZE(bits) : 3), n = 1 + mc_choose(3);
  if (!mc_thorough)
    j = (i + 1 + j * 5) % ARRAY_SIZE(bits);
  if (j == i)
    mc_prune();
  memset(b, 0x5a, 32);
  uni_init(&u);
  uni_key(&u, b);
  uni_key_bits(&u, b, bits[i]);
  uni_key_bits(&u, b, bits[j]);
  uni_val(&u, item, 1);
  uni_val(&u, (item * 5 + 2) % 1024, 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  c[0] = 0;
  if (n > 1)
    c[1] = 1;
  if (n > 2)
    c[2] = 0;
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  lay_make(&lay, (item + i) % 4);
  wkey(key, item % 3);
  wr_begin(&w, "/w/db", &lay, key);
  wr_commit(&w, r, ref_recs(&u, c, r));
  wr_end(&w);
  v.db = must_open("/w/db");
  view_check(&v, &u, c, VW_ALL | VW_BYTES, "a database written by someone else");
  urkel_close(v.db);
  mc_trans(1);
  mc_state(item * 4096 + i * 64 + j * 4 + n);
}
PART(c22_shape, "C22", "c22-shape", shape_items, shape_run,
  "databases of one to three records written by the independent writer with every value size 0..1023 and keys differing in all pairs of 15 bit positions (quick: some): opened, everything read, iterated and proved, proofs byte for byte",
  {NULL}, FL_ASAN, 0);

/* Library and independent writer taking turns. */
#define TURNS 64
static long turn_items(void) { return (mc_thorough ? 8L : 2L) * TURNS; }
static void
turn_run(long item) {
  static struct universe u;
  static int made = -1;
  static struct wr w;
  struct wlay lay;
  struct model m;
  struct op o, ops[256];
  struct rec r[MAXK];
  oc c;
  int ui = mc_thorough ? item / TURNS : (item + item / TURNS) % 8, i, k, n, x, depth = mc_thorough ? 5 : 3;
  if (made != ui) {
    ou_small(&u, ui, 2);
    made = ui;
  }
  lay_make(&lay, (item % TURNS) * 37 % NLAY);
  env_limits_fast();
  urkel_verify_max_file_size = lay.limit;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < depth; i++) {
    n = ops_enabled(&m, A(OP_INS) | A(OP_REM), 0, 2, 2, ops, 256);
    x = mc_choose(n + 9 + 1);
    if (x == n + 9)
      break;
    if (x < n) {
      step(&R[0], &m, &ops[x]);
    } else {
      x -= n;
      o.kind = OP_CLOSE;
      step(&R[0], &m, &o);
      memset(&c, -1, sizeof(c));
      for (k = 0; k < 2; k++)
        c.c[k] = x / pow_i(3, k) % 3 - 1;
      wr_resume(&w, db_path, &lay);
      wr_commit(&w, r, ref_recs(&u, c.c, r));
      wr_end(&w);
      model_hist_add(&m, &c);
      m.disk = c;
      o.kind = OP_OPEN;
      step(&R[0], &m, &o);
    }
    mc_trans(1);
    mc_state(model_hash(&m) + item);
  }
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  o.kind = OP_REOPEN;
  step(&R[0], &m, &o);
  observe(&R[0], &m, OBS_DB | OBS_HIST | OBS_ITER);
  observe_disk(&m, 0);
  db_end(&m);
}
PART(c22_turns, "C22", "c22-turns", turn_items, turn_run,
  "every sequence of up to three (thorough five) commits, each made by the library or by the independent writer, over two keys in 8 universes and 64 layouts (quick: 128 of the combinations); everything read by the library and by the independent reader",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* What the library writes                                              */
/* ------------------------------------------------------------------ */

static const struct seqcfg seq_cfg = {
  .unis = 8, .nk = 4, .nv = 3, .ntx = 1, .depth = 3, .tdepth = 4, .tunis = 8,
  .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_REOPEN),
  .what = OBS_DB, .disk = 1, .start_tx = 1, .setup = 1, .clean = 1
};
static long s_items(void) { return seq_items(&seq_cfg); }
static void s_run(long i) { seq_run(&seq_cfg, i); }
PART(c22_write, "C22", "c22-write", s_items, s_run,
  "every sequence of operations of a transaction over four keys and three values; the files read by the independent reader after each",
  {NULL}, FL_ASAN, 0);

/* Names, sizes and modes of files; the key alone makes records valid. */
static long lay_items(void) { return 1024; }
static void
lay_run(long item) {
  static struct universe u;
  static struct rd_commit rc[16];
  char names[40][256], path[300], msg[200], want[20];
  uint8_t b[32];
  int n, i, f, files, commits = 2 + mc_choose(6), lim = mc_choose(3);
  urkel_t *db;
  int8_t c[MAXK];
  static const long lims[] = {0x7fffffff, 2048, 1100};
  memset(b, 0x99, 32);
  uni_init(&u);
  for (i = 0; i < 8; i++)
    uni_key_bits(&u, b, i * 31);
  uni_val(&u, item, 1);
  uni_done(&u);
  env_reset();
  env_limits_fast();
  urkel_verify_max_file_size = lims[lim];
  fs_mkdir("/w");
  db = must_open("/w/db");
  memset(c, -1, sizeof(c));
  for (i = 0; i < commits; i++) {
    if (!urkel_insert(db, u.key[i], u.val[0], u.len[0]))
      mc_fail("insert fails with error %d", urkel_errno);
    c[i] = 0;
    mc_trans(1);
  }
  urkel_close(db);
  n = fs_list("/w/db", names, 40);
  files = 0;
  for (i = 0; i < n; i++) {
    if (strcmp(names[i], "meta") == 0 || strcmp(names[i], "lock") == 0)
      continue;
    files += 1;
    snprintf(want, sizeof(want), "%010d", files);
    if (strcmp(names[i], want) != 0)
      mc_fail("a stored file is named %s, not %s", names[i], want);
  }
  if (lim == 0 && files != 1)
    mc_fail("%d data files where one has room", files);
  for (f = 1; f <= files; f++) {
    snprintf(path, sizeof(path), "/w/db/%010d", f);
    if (fs_size(path) > lims[lim])
      mc_fail("%s has %ld bytes", path, fs_size(path));
    if (f == files && fs_size(path) % 38 != 0)
      mc_fail("%s does not end with a commit record", path);
  }
  if (fs_size("/w/db/meta") != 32)
    mc_fail("the key file has %ld bytes", fs_size("/w/db/meta"));
  n = rd_history("/w/db", rc, 16, msg, sizeof(msg), lims[lim]);
  if (n != commits)
    mc_fail("stored files: %s (%d commits)", n < 0 ? msg : "", n);
  for (i = 0; i < n; i++) {
    uint8_t root[32];
    int j;
    memset(c, -1, sizeof(c));
    for (j = 0; j <= i; j++)
      c[j] = 0;
    ref_root(&u, c, root);
    if (rc[i].nrec != i + 1 || memcmp(root, rc[i].root, 32) != 0)
      mc_fail("stored files: commit %d holds something else", i);
  }
  rd_free(rc, n);
  mc_state(item * 32 + commits * 4 + lim);
}
PART(c22_layout, "C22", "c22-layout", lay_items, lay_run,
  "two to seven commits of every value size in one and in several files: names, sizes, alignment and the whole history by the independent reader",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Proofs                                                               */
/* ------------------------------------------------------------------ */

static long bits_i(void) { return mc_thorough ? bits_items() : bits_items() / 4; }
static void bits_r(long i) { bits_run(mc_thorough ? i : i * 4 + 1, VW_PROVE | VW_BYTES); }
PART(c22_bits, "C22", "c22-bits", bits_i, bits_r,
  "keys base, base^bit i, base^bit j for all i < j (quick: every fourth i, j work item): every proof byte for byte as documented", {NULL}, FL_ASAN, 0);
static const struct allcfg all_cfg = {5, 7, 8, 8};
static long all_i(void) { return all_items(&all_cfg); }
static void all_r(long i) { all_run(&all_cfg, i, VW_PROVE | VW_BYTES); }
PART(c22_all, "C22", "c22-all", all_i, all_r,
  "every contents over the universe's keys changed into every other: every proof byte for byte as documented", {NULL}, FL_ASAN, 0);
static void chain_r(long i) { chain_run(i, VW_PROVE | VW_BYTES); }
PART(c22_chain, "C22", "c22-chain", chain_items, chain_r,
  "chains up to 257 keys deep: every proof byte for byte as documented", {NULL}, FL_ASAN, 0);

/* Documented proofs are accepted. */
static long acc_items(void) { return 1024; }
static void
acc_run(long item) {
  static const int bits[] = {0, 1, 7, 8, 15, 100, 127, 128, 247, 248, 254, 255};
  static uint8_t raw[1 << 16];
  struct universe u;
  uint8_t b[32], root[32], *buf;
  int8_t c[MAXK];
  struct rec r[MAXK];
  size_t n, len;
  int i = mc_choose(ARRAY_SIZE(bits)), j = mc_choose(ARRAY_SIZE(bits)), set = mc_choose(16), nr, k, ex;
  if (j == i)
    mc_prune();
  memset(b, 0x3c, 32);
  uni_init(&u);
  uni_key(&u, b);
  uni_key_bits(&u, b, bits[i]);
  uni_key_bits(&u, b, bits[j]);
  memcpy(b, u.key[1], 32);
  uni_key_bits(&u, b, bits[j]);
  uni_val(&u, item, 1);
  uni_val(&u, 3, 2);
  uni_done(&u);
  memset(c, -1, sizeof(c));
  for (k = 0; k < 4; k++)
    if (set >> k & 1)
      c[k] = k % 2;
  nr = ref_recs(&u, c, r);
  ref_root(&u, c, root);
  for (k = 0; k < 4; k++) {
    uint8_t *copy;
    n = ref_prove(r, nr, u.key[k], raw);
    copy = malloc(n);
    memcpy(copy, raw, n);
    buf = malloc(1023);
    ex = 7;
    len = 9999;
    if (!urkel_verify(&ex, buf, &len, copy, n, u.key[k], root))
      mc_fail("a documented proof is refused with error %d", urkel_errno);
    if (ex != (c[k] >= 0) || (ex && (len != u.len[c[k]] || memcmp(buf, u.val[c[k]], len) != 0)))
      mc_fail("a documented proof is misread");
    mc_trans(1);
    free(copy);
    free(buf);
  }
  mc_state(item * 65536 + i * 4096 + j * 256 + set);
}
PART(c22_accept, "C22", "c22-accept", acc_items, acc_run,
  "proofs made by the independent prover for all contents of four keys differing in all pairs of 12 bit positions, with every value size: accepted, and read as they are",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* A database written by the library as first published                 */
/* ------------------------------------------------------------------ */

#include "golden.h"

static void
golden_key(uint8_t *k, int i) {
  int j;
  for (j = 0; j < 32; j++)
    k[j] = (j * 73 + 41) ^ (j << 3);
  k[0] ^= i << 5;
  if (i >= 4)
    k[31] ^= i - 3;
}

static long gold_items(void) { return 10; }
static void
gold_run(long item) {
  static uint8_t vals[10][300];
  static const uint16_t lens[10] = {0, 7, 28, 63, 112, 175, 252, 100, 0, 0};
  struct universe u;
  int8_t c[MAXK];
  struct view v = {0};
  uint8_t k[32], root[32];
  int i, steps = item, n;
  /* records after the given number of commits: 7 inserts, a removal, and one
     commit of three changes */
  int has[7] = {0}, val[7];
  memset(c, -1, sizeof(c));
  for (i = 0; i < 7; i++)
    memset(vals[i], i + 1, 300);
  memset(vals[7], 9, 300);
  for (i = 0; i < 7; i++) {
    has[i] = i < steps;
    val[i] = i;
  }
  if (steps >= 8)
    has[2] = 0;
  if (steps >= 9) {
    has[2] = 1;
    val[2] = 7;
    has[0] = 0;
    val[5] = 8;
  }
  uni_init(&u);
  for (i = 0; i < 7; i++) {
    golden_key(k, i);
    uni_key(&u, k);
  }
  for (i = 0; i < 9; i++) {
    u.val[i] = vals[i];
    u.len[i] = lens[i];
  }
  u.nv = 9;
  for (i = 0; i < 7; i++)
    u.order[i] = i;
  for (i = 0; i < 6; i++)
    for (n = 0; n < 6; n++)
      if (memcmp(u.key[u.order[n]], u.key[u.order[n + 1]], 32) > 0) {
        int t = u.order[n];
        u.order[n] = u.order[n + 1];
        u.order[n + 1] = t;
      }
  for (i = 0; i < 7; i++)
    if (has[i])
      c[i] = val[i];
  env_reset();
  env_limits_fast();
  fs_mkdir("/w");
  fs_mkdir("/w/db");
  fs_write("/w/db/meta", golden_key_file, sizeof(golden_key_file));
  fs_write("/w/db/0000000001", golden_data, sizeof(golden_data));
  v.db = must_open("/w/db");
  if (steps == 9) {
    view_check(&v, &u, c, VW_ALL | VW_BYTES, "a database written by the first release");
  } else {
    ref_root(&u, c, root);
    v.root = root;
    view_check(&v, &u, c, VW_ALL | VW_BYTES, "an old root of a database written by the first release");
  }
  urkel_close(v.db);
  mc_trans(1);
  mc_state(steps);
}
PART(c22_golden, "C22", "c22-golden", gold_items, gold_run,
  "a database of nine commits written by the library as first published: every one of its roots read, iterated and proved", {NULL}, FL_ASAN, 0);
