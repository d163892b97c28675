/* The shipped limits: built without URKEL_VERIFY, on files with holes. */
#include "seq.h"
#include "shape.h"
#include "../wr.h"

#define MAXFILE 0x7ffff000L
#define MAXOPEN 32
#define SCAN (1048576L - 1048576L % 38)

static void
begin(struct wr *w, struct model *m, struct universe *u, int early) {
  struct wlay lay = {0};
  uint8_t key[32];
  int i;
  lay.limit = MAXFILE;
  lay.reuse = 1;
  lay.early = early;
  env_reset();
  env_limits_fast();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(m, u);
  for (i = 0; i < 32; i++)
    key[i] = i * 7 + 1;
  wr_begin(w, db_path, &lay, key);
}

static void
commit(struct wr *w, struct model *m, const oc *c) {
  struct rec r[MAXK];
  wr_commit(w, r, ref_recs(m->u, c->c, r));
  model_hist_add(m, c);
  m->disk = m->cur = *c;
}

static void
opened(struct model *m) {
  struct op o;
  memset(&o, 0, sizeof(o));
  m->there = 1;
  o.kind = OP_OPEN;
  step(&R[0], m, &o);
}

/* Near the end of a full file. */
static const int vsz[] = {500, 777, 1022, 1023};
#define LO 76
static long size_items(void) { return mc_thorough ? 1024 : LO + ARRAY_SIZE(vsz); }
static void
size_run(long item) {
  static struct universe u;
  static struct wr w;
  static int made = -1;
  struct model m;
  struct op o;
  oc c;
  uint8_t b[32];
  int size = mc_thorough || item < LO ? item : vsz[item - LO];
  int back = mc_choose(44), tx = mc_choose(2), i;
  long end = MAXFILE / 38 * 38 - 38 * back;
  if (made != item) {
    memset(b, 0x5a, 32);
    uni_init(&u);
    for (i = 0; i < 5; i++)
      uni_key_bits(&u, b, i * 50 + 3);
    uni_val(&u, size, 1);
    uni_val(&u, 20, 2);
    uni_done(&u);
    made = item;
  }
  begin(&w, &m, &u, 0);
  memset(&c, -1, sizeof(c));
  c.c[0] = 1;
  commit(&w, &m, &c);
  wr_skip(&w, end - 38 * 12);
  c.c[1] = 1;
  commit(&w, &m, &c);
  wr_skip(&w, end - 38);
  c.c[1] = -1;
  commit(&w, &m, &c);
  wr_end(&w);
  opened(&m);
  memset(&o, 0, sizeof(o));
  if (tx) {
    o.kind = OP_TXNEW;
    o.hist = H_CUR;
    step(&R[0], &m, &o);
  }
  for (i = 0; i < 3; i++) {
    o.kind = tx ? OP_TXINS : OP_INS;
    o.key = 2 + i;
    o.val = i == 2;
    step(&R[0], &m, &o);
    mc_trans(1);
  }
  if (tx) {
    o.kind = OP_TXCOMMIT;
    o.key = o.val = 0;
    step(&R[0], &m, &o);
  }
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  memset(&o, 0, sizeof(o));
  o.kind = OP_REOPEN;
  step(&R[0], &m, &o);
  observe(&R[0], &m, OBS_DB | OBS_HIST | OBS_ITER);
  observe_disk(&m, MAXFILE);
  mc_state(item * 100 + back * 2 + tx);
  if (mc_want_sample())
    mc_sample("value of %d bytes, %ld bytes left in the file", size, MAXFILE - end);
  db_end(&m);
}
PART(c11_full, "C11", "c11-full", size_items, size_run,
  "three commits or one of three changes by the library as shipped, with a value of each of 80 sizes (thorough: 0 to 1023), into a data file whose last commit ends in each of 44 places up to the maximum of 2147479552 bytes: what is read, every root, a reopening and the size of each file",
  {NULL}, FL_STOCK, 60);

/* More files than may be open. */
static long open_items(void) { return mc_thorough ? 80 : 12; }
static void
open_run(long item) {
  static struct universe u;
  static struct wr w;
  static const int counts[] = {30, 31, 32, 33, 34, 35, 40, 50, 64, 65, 66, 90};
  struct model m;
  struct op o;
  int n = mc_thorough ? item + 20 : counts[item], i, k, tx = mc_choose(2), warm = mc_choose(2);
  oc c;
  ou_small(&u, 0, 5);
  begin(&w, &m, &u, 1);
  w.lay.reuse = 0;
  memset(&c, -1, sizeof(c));
  for (i = 0; i < n; i++) {
    if (i < OPH - 4) {
      c.c[0] = i % 2;
      c.c[1] = i / 2 % 3 - 1;
      c.c[2] = i / 6 % 3 - 1;
    }
    if (i < OPH - 4) {
      commit(&w, &m, &c);
    } else { /* the same roots over again */
      struct rec r[MAXK];
      wr_commit(&w, r, ref_recs(&u, m.hist[i % (OPH - 4)].c, r));
      m.disk = m.cur = m.hist[i % (OPH - 4)];
    }
  }
  wr_end(&w);
  opened(&m);
  memset(&o, 0, sizeof(o));
  if (warm)
    observe(&R[0], &m, OBS_DB | OBS_HIST);
  for (i = 0; i < 3; i++) {
    if (tx) {
      o.kind = OP_TXNEW;
      o.hist = H_CUR;
      step(&R[0], &m, &o);
      o.kind = OP_TXINS;
      o.key = 3;
      o.val = i & 1;
      step(&R[0], &m, &o);
      o.kind = OP_TXCOMMIT;
      step(&R[0], &m, &o);
      o.kind = OP_TXFREE;
      step(&R[0], &m, &o);
    } else {
      o.kind = OP_INS;
      o.key = 3;
      o.val = i & 1;
      step(&R[0], &m, &o);
    }
    memset(&o, 0, sizeof(o));
    k = env_open_data_files();
    if (k > MAXOPEN + 1)
      mc_fail("after a commit %d of %d data files are open", k, n);
    observe(&R[0], &m, OBS_DB | OBS_HIST);
    mc_trans(1);
  }
  o.kind = OP_REOPEN;
  step(&R[0], &m, &o);
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  mc_state(n * 4 + tx * 2 + warm);
  db_end(&m);
}
PART(c11_many, "C11", "c11-many", open_items, open_run,
  "databases of 30 to 90 files (thorough: 20 to 99), all old roots read, written to by the library as shipped: what is read, and the number of data files open after each commit",
  {NULL}, FL_STOCK, 60);

/* Recovery that has to look back further than one read. */
static long tail_items(void) { return 3 * 2 * 80; }
static void
tail_run(long item) {
  static struct universe u;
  static struct wr w;
  static uint8_t *junk;
  struct model m;
  struct op o;
  oc c;
  char path[64];
  long n = SCAN * (item / 160), len, i;
  int kind = item / 80 % 2;
  if (item / 160 == 0) /* a tail of less */
    n = 200;
  n += (item % 80) * 2 - 80 + mc_choose(2);
  if (junk == NULL && (junk = malloc(3 * SCAN)) == NULL)
    mc_internal("malloc");
  ou_small(&u, 0, 5);
  begin(&w, &m, &u, 0);
  memset(&c, -1, sizeof(c));
  for (i = 0; i < 3; i++) {
    c.c[i] = 0;
    commit(&w, &m, &c);
  }
  wr_end(&w);
  snprintf(path, sizeof(path), "%s/0000000001", db_path);
  len = fs_size(path);
  memset(junk, 0, n);
  if (kind)
    for (i = (38 - len % 38) % 38; i + 38 <= n; i += 38)
      memcpy(junk + i, "\x6c\x6b\x72\x6d", 4);
  fs_pwrite(path, junk, n, len);
  opened(&m);
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  o.key = 4;
  step(&R[0], &m, &o);
  o.kind = OP_REOPEN;
  step(&R[0], &m, &o);
  mc_trans(1);
  observe(&R[0], &m, OBS_DB | OBS_HIST);
  observe_disk(&m, 0);
  mc_state(n * 2 + kind);
  db_end(&m);
}
PART(c09_tail, "C09", "c09-tail", tail_items, tail_run,
  "tails of zeros or of false records, of every length within 80 bytes of one and of two whole reads of the recovering library as shipped (and of small ones), behind the last commit",
  {NULL}, FL_STOCK, 60);
