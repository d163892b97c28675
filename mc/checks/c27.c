/* C27 - the Windows port, over a stand-in for the part of Windows it uses
 * (../win.c) */
#include "fault.h"
#include "damage.h"
#include "shape.h"
#include "../view.h"

#define PORTS FL_WIN

#define ALLDB (A(OP_INS) | A(OP_REM) | A(OP_GET) | A(OP_HAS) | A(OP_PROVE) | A(OP_ITER) | A(OP_INJ) | A(OP_REOPEN))
#define ALLTX (A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXGET) | A(OP_TXHAS) | A(OP_TXPROVE) | A(OP_TXROOT) | \
               A(OP_TXITER) | A(OP_TXCLEAR) | A(OP_TXINJ) | A(OP_TXCOMMIT))

static void
lim_small(void) {
  env_limits_fast();
  urkel_verify_max_file_size = 340;
  urkel_verify_write_buffer = 200;
  urkel_verify_max_open_files = 2;
}

#define SEQ(sym, nm, what_, ...) \
  static const struct seqcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return seq_items(&sym##_c); } \
  static void sym##_r(long i) { seq_run(&sym##_c, i); } \
  PART(sym, "C27", nm, sym##_i, sym##_r, what_, {NULL}, PORTS, 0)

SEQ(c27_db, "c27-db", "every sequence of all database operations, everything readable compared after each",
  .unis = 1, .tunis = 8, .nk = 2, .nv = 2, .depth = 3, .tdepth = 4, .mask = ALLDB | A(OP_DESTROY), .what = OBS_DB | OBS_HIST | OBS_PROOF | OBS_ITER, .setup = 2, .clean = 1);
SEQ(c27_tx, "c27-tx", "every sequence of all operations of a transaction",
  .unis = 4, .tunis = 8, .nk = 3, .nv = 2, .ntx = 1, .depth = 3, .tdepth = 4, .mask = ALLTX, .what = OBS_TX | OBS_DB, .start_tx = 1, .setup = 2, .clean = 1);
SEQ(c27_files, "c27-files", "the same on many files of at most 340 bytes, two of them open, with a small write buffer",
  .unis = 3, .tunis = 6, .nk = 4, .nv = 2, .ntx = 1, .depth = 3, .tdepth = 4, .mask = A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT) | A(OP_REOPEN) | A(OP_TXNEW) | A(OP_INJ) | A(OP_DESTROY),
  .what = OBS_TX | OBS_DB | OBS_HIST, .start_tx = 1, .setup = 4, .clean = 1, .limits = lim_small);

#define FLT(sym, nm, what, ...) \
  static const struct fltcfg sym##_c = {__VA_ARGS__}; \
  static long sym##_i(void) { return flt_items(&sym##_c); } \
  static void sym##_r(long i) { flt_run(&sym##_c, i); } \
  PART(sym, "C27", nm, sym##_i, sym##_r, what, {"faults", "failed calls"}, FL_WIN, 0)
static const int sizes[] = {114, 300, 100000, 0};
FLT(c27_fault, "c27-fault", "every database operation on a reopened database of one and of many files with every single failing, short or interrupted system call",
  .unis = 1, .tunis = 3, .nk = 3, .nv = 2, .setup = 2, .depth = 1, .tdepth = 2, .faults = 1, .tfaults = 1, .sticky = 1,
  .sizes = sizes, .maxopen = 2, .mask = ALLDB);

static long dmgb_i(void) { return mc_thorough ? dmg_byte_items() : (dmg_byte_items() + 3) / 4; }
static void dmgb_r(long i) { dmg_byte_run(mc_thorough ? i : i * 4 % dmg_byte_items()); }
PART(c27_byte, "C27", "c27-byte", dmgb_i, dmgb_r,
  "every byte (quick: a quarter) of seven databases damaged as in c21-byte", {NULL}, FL_WIN, 0);
PART(c27_cut, "C27", "c27-cut", dmg_cut_items, dmg_cut_run,
  "every file of seven databases cut to every length", {NULL}, FL_WIN, 0);

static const struct allcfg all_cfg = {4, 5, 4, 8};
static long all_i(void) { return all_items(&all_cfg); }
static void all_r(long i) { all_run(&all_cfg, i, VW_ALL); }
PART(c27_all, "C27", "c27-all", all_i, all_r,
  "every contents over four keys (thorough five) changed into every other", {NULL}, FL_WIN, 0);

static uint8_t r0[32];
/* Any number of files: opened again, and destroyed without a trace. */
static long many_items(void) { return 130; }
static void
many_run(long item) {
  uint8_t k[32], v[1024], root[32];
  size_t n;
  urkel_t *db;
  long i, j;
  env_reset();
  env_limits_fast();
  urkel_verify_max_file_size = 600;
  urkel_verify_max_open_files = 3;
  fs_mkdir("/w");
  db = must_open("/w/db");
  memset(k, 0, 32);
  for (i = 0; i < item; i++) {
    k[0] = i * 37;
    k[31] = i;
    k[30] = i >> 8;
    if (!urkel_insert(db, k, k, 32))
      mc_fail("insert %ld fails with error %d", i, urkel_errno);
    mc_trans(1);
  }
  urkel_root(db, root);
  for (j = 0; j < 2; j++) {
    uint8_t r[32];
    urkel_close(db);
    db = must_open("/w/db");
    urkel_root(db, r);
    if (memcmp(r, root, 32) != 0)
      mc_fail("reopening after %ld inserts gives another root", item);
    for (i = j; i < item; i += 1 + item / 30) { /* (what is read stays open) */
      k[0] = i * 37;
      k[31] = i;
      k[30] = i >> 8;
      if (!urkel_get(db, v, &n, k, NULL) || n != 32 || memcmp(v, k, 32) != 0)
        mc_fail("record %ld of %ld is not there after reopening", i, item);
    }
  }
  urkel_close(db);
  if (!urkel_destroy("/w/db"))
    mc_fail("destroying after %ld inserts fails with error %d", item, urkel_errno);
  if (fs_exists("/w/db"))
    mc_fail("the directory is there after it was destroyed");
  db = must_open("/w/db");
  urkel_root(db, root);
  if (memcmp(root, r0, 32) != 0)
    mc_fail("a database made anew is not empty");
  urkel_close(db);
  mc_state(item);
  check_clean("at the end");
}
PART(c27_many, "C27", "c27-many", many_items, many_run,
  "every number of inserts up to 129 into files of 600 bytes: reopened twice, some 30 records read, destroyed, made anew", {NULL}, PORTS, 0);
