/* C16 - destroy removes the database's own files and nothing else */
#include <errno.h>
#include "fault.h"
#include "../view.h"

static struct universe u;
static struct model m;

/* ------------------------------------------------------------------ */
/* States of a database                                                 */
/* ------------------------------------------------------------------ */

enum { S_MISSING, S_BARE, S_FRESH, S_ONE, S_FILES, S_EMPTIED, S_LOCK, S_NOKEY, S_NODATA, S_NEW, S_N };
static const char *const state_name[S_N] = {
  "missing", "bare directory", "fresh", "one commit", "several files", "emptied", "left by a dead process", "without key", "without data", "key only"
};

static void
ins(struct real *r, int k, int v) {
  struct op o;
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  o.key = k;
  o.val = v;
  step(r, &m, &o);
}

static void
simple(struct real *r, int kind) {
  struct op o;
  memset(&o, 0, sizeof(o));
  o.kind = kind;
  step(r, &m, &o);
}

static void
make_state(int s) {
  struct real *r = &R[0];
  char n[32];
  int i;
  ou_small(&u, 0, 5);
  env_limits_fast();
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  if (s == S_FILES)
    urkel_verify_max_file_size = 130;
  if (s == S_BARE)
    fs_mkdir(db_path);
  if (s >= S_FRESH) {
    simple(r, OP_OPEN);
    if (s >= S_ONE && s != S_NEW)
      ins(r, 0, 0);
    if (s == S_FILES)
      for (i = 1; i < 5; i++)
        ins(r, i, i & 1);
    if (s == S_EMPTIED) {
      struct op o;
      memset(&o, 0, sizeof(o));
      o.kind = OP_REM;
      step(r, &m, &o);
    }
    if (s == S_LOCK) {
      env_proc_exit(0);
      memset(R, 0, sizeof(R));
    } else {
      simple(r, OP_CLOSE);
    }
  }
  if (s == S_NOKEY)
    fs_unlink("/w/db/meta");
  if (s == S_NODATA || s == S_NEW) {
    snprintf(n, sizeof(n), "/w/db/%010d", 1);
    fs_unlink(n);
  }
  if (s == S_FILES && fs_list(db_path, (char[64][256]){{0}}, 64) < 5)
    mc_internal("not several files");
}

/* A fresh, empty database can be made there. */
static void
fresh(void) {
  struct real *r = &R[0];
  model_init(&m, &u);
  simple(r, OP_OPEN);
  observe(r, &m, OBS_DB);
  ins(r, 1, 1);
  ins(r, 2, 0);
  observe(r, &m, OBS_DB | OBS_HIST);
  simple(r, OP_REOPEN);
  observe(r, &m, OBS_DB | OBS_HIST);
  simple(r, OP_CLOSE);
  check_clean("in the end");
}

/* ------------------------------------------------------------------ */
/* Foreign entries                                                      */
/* ------------------------------------------------------------------ */

static const char *const fname[] = {
  "x", "0000000001.bak", "000000001", "00000000001", "000000000a", "+000000001", "-000000001", " 000000001", "0x00000001",
  "4294967296", "9999999999", "metal", "met", "Meta", "META", "meta~", "meta.tmp", "locks", "loc", "Lock", "lock.1", ".lock",
  "1", "0000000001 ", ".meta", "...", ".0000000001", "000000000", "0000000", "00000000000000000000", "0000000001\n", "18446744073709551617",
};
#define NFNAME ((int)ARRAY_SIZE(fname))
/* names of its own, which may be foreign by their type */
static const char *const oname[] = {"0000000700", "0000000990", "4294967295"};
#define NONAME ((int)ARRAY_SIZE(oname))
enum { F_FILE, F_EMPTYFILE, F_DIR, F_FULLDIR, F_LNFILE, F_LNDIR, F_LNNONE, F_LNOWN, F_LNUP, F_KINDS };
static const char *const kind_name[F_KINDS] = {
  "file", "empty file", "directory", "directory with files", "link to a file outside", "link to a directory outside", "dangling link", "link to a data file", "link upwards"
};

static void
foreign(const char *name, int kind) {
  char p[400], q[500];
  snprintf(p, sizeof(p), "%s/%s", db_path, name);
  switch (kind) {
    case F_FILE: fs_write(p, "not yours", 9); break;
    case F_EMPTYFILE: fs_write(p, "", 0); break;
    case F_DIR: fs_mkdir(p); break;
    case F_FULLDIR:
      fs_mkdir(p);
      snprintf(q, sizeof(q), "%s/0000000001", p);
      fs_write(q, "not yours", 9);
      snprintf(q, sizeof(q), "%s/meta", p);
      fs_write(q, "nor this", 8);
      snprintf(q, sizeof(q), "%s/lock", p);
      fs_write(q, "", 0);
      break;
    case F_LNFILE: fs_symlink("/w/other/file", p); break;
    case F_LNDIR: fs_symlink("/w/other/dir", p); break;
    case F_LNNONE: fs_symlink("/w/nothing", p); break;
    case F_LNOWN: fs_symlink("/w/db/0000000001", p); break;
    case F_LNUP: fs_symlink("/w", p); break;
  }
}

/* Around it: other databases, files named like its own. */
static void
around(void) {
  static const char *const f[] = {"/w/meta", "/w/lock", "/w/0000000001", "/w/db.lock", "/w/db0000000001", "/meta", "/0000000001",
                                  "/w/other/file", "/w/other/dir/0000000001", "/w/other/dir/meta", "/w/dbx/meta", "/w/dbx/0000000001", "/w/d"};
  int i;
  fs_mkdir("/w/other");
  fs_mkdir("/w/other/dir");
  fs_mkdir("/w/dbx");
  for (i = 0; i < (int)ARRAY_SIZE(f); i++)
    fs_write(f[i], f[i], strlen(f[i]));
}

static uint64_t
outside(void) {
  return fs_tree_hash("/", db_path);
}

/* Destroys and judges; nf names of foreign entries with their kinds.  own:
 * the entry has a name of the database's own and need not stay. */
struct fent { const char *name; int kind, own; };

static uint64_t
fent_hash(const struct fent *f) {
  char p[400];
  snprintf(p, sizeof(p), "%s/%s", db_path, f->name);
  if (!fs_exists(p))
    return 0;
  return fs_tree_hash(p, NULL) ^ (uint64_t)fs_type(p) << 56;
}

static void
remove_foreign(const struct fent *f) {
  char p[400], q[500];
  snprintf(p, sizeof(p), "%s/%s", db_path, f->name);
  if (!fs_exists(p))
    return;
  if (f->kind == F_FULLDIR) {
    snprintf(q, sizeof(q), "%s/0000000001", p);
    fs_unlink(q);
    snprintf(q, sizeof(q), "%s/meta", p);
    fs_unlink(q);
    snprintf(q, sizeof(q), "%s/lock", p);
    fs_unlink(q);
  }
  if (f->kind == F_DIR || f->kind == F_FULLDIR)
    fs_rmdir(p);
  else
    fs_unlink(p);
}

static void
destroy_check(int s, const struct fent *f, int nf) {
  uint64_t out = outside(), h[4];
  int i, ok, stays = 0, tries;
  for (i = 0; i < nf; i++) {
    h[i] = fent_hash(&f[i]);
    if (!f[i].own)
      stays++;
  }
  for (tries = 0; tries < 2; tries++) {
    urkel_errno = 0;
    ok = urkel_destroy(db_path);
    mc_trans(1);
    if (outside() != out)
      mc_fail("destroy (%s) changes something outside the database", state_name[s]);
    for (i = 0; i < nf; i++)
      if (!f[i].own && fent_hash(&f[i]) != h[i])
        mc_fail("destroy (%s) removes or changes %s, a %s", state_name[s], f[i].name, kind_name[f[i].kind]);
    if (ok && fs_exists(db_path))
      mc_fail("destroy (%s) reports success, but the directory is there", state_name[s]);
    if (!ok && urkel_errno == 0)
      mc_fail("a failed destroy reports no error");
    if (s == S_MISSING) {
      if (ok)
        mc_fail("destroying what does not exist succeeds");
      if (fs_exists(db_path))
        mc_fail("destroying what does not exist creates it");
      break;
    }
    if (stays) {
      if (ok)
        mc_fail("destroy (%s) succeeds although %s is there", state_name[s], f[0].name);
      continue;
    }
    if (!ok)
      mc_fail("destroy (%s) fails with %d", state_name[s], urkel_errno);
    break;
  }
  check_clean("after destroy");
  if (stays) {
    /* Once the rest is gone, it succeeds. */
    for (i = 0; i < nf; i++)
      remove_foreign(&f[i]);
    if (!urkel_destroy(db_path))
      mc_fail("destroy fails after the other files were removed: %d", urkel_errno);
    if (fs_exists(db_path))
      mc_fail("destroy reports success, but the directory is there");
    if (outside() != out)
      mc_fail("destroy changes something outside the database");
  }
  fresh();
  if (outside() != out)
    mc_fail("a fresh database changes something outside of it");
}

static long one_items(void) { return S_N * (NFNAME + NONAME + 1); }
static void
one_run(long item) {
  int s = item % S_N, k = item / S_N;
  struct fent f[1];
  make_state(s);
  around();
  if (k == 0) {
    destroy_check(s, NULL, 0);
  } else {
    k--;
    if (s == S_MISSING)
      mc_prune();
    if (k < NFNAME) {
      f[0].name = fname[k];
      f[0].kind = mc_choose(F_KINDS);
      f[0].own = 0;
    } else {
      f[0].name = oname[k - NFNAME];
      f[0].kind = mc_choose(F_KINDS);
      f[0].own = f[0].kind != F_DIR && f[0].kind != F_FULLDIR;
    }
    foreign(f[0].name, f[0].kind);
    destroy_check(s, f, 1);
  }
  mc_state(mc_hash(1, &item, sizeof(item)));
  if (mc_want_sample())
    mc_sample("%s, foreign entry %d", state_name[s], k);
}
PART(c16_one, "C16", "c16-one", one_items, one_run,
  "destroying a database in each of 10 states (also missing, bare, damaged, left by a dead process) with each of 35 foreign names (near the database's own) as a file, directory or link of 9 kinds, then a fresh database in its place; everything around compared",
  {NULL}, FL_ASAN, 0);
PART(c27_c16_one, "C27", "c27-foreign", one_items, one_run,
  "in the Windows port: " "destroying a database in each of 10 states (also missing, bare, damaged, left by a dead process) with each of 35 foreign names (near the database's own) as a file, directory or link of 9 kinds, then a fresh database in its place; everything around compared", {NULL}, FL_WIN, 0);

static long two_items(void) { return 3L * NFNAME * NFNAME; }
static void
two_run(long item) {
  static const int states[] = {S_ONE, S_FILES, S_LOCK};
  int s = states[item % 3];
  int a = item / 3 % NFNAME, b = item / 3 / NFNAME, k;
  struct fent f[2];
  if (b <= a)
    mc_prune();
  k = mc_choose(mc_thorough ? F_KINDS * F_KINDS : F_KINDS);
  f[0] = (struct fent){fname[a], k % F_KINDS, 0};
  f[1] = (struct fent){fname[b], mc_thorough ? k / F_KINDS : (k + a + b) % F_KINDS, 0};
  make_state(s);
  around();
  foreign(f[0].name, f[0].kind);
  foreign(f[1].name, f[1].kind);
  destroy_check(s, f, 2);
  mc_state(mc_hash(2, &item, sizeof(item)));
}
PART(c16_two, "C16", "c16-two", two_items, two_run,
  "the same with every pair of foreign names (thorough: with every pair of kinds)",
  {NULL}, FL_ASAN, 0);

/* The path itself is something else. */
static long odd_items(void) { return 8; }
static void
odd_run(long item) {
  uint64_t h;
  const char *p = "/w/p";
  int ok, i, open = mc_choose(2);
  make_state(S_ONE);
  around();
  switch (item) {
    case 0: fs_write(p, "file", 4); break;
    case 1: fs_symlink("/w/other/file", p); break;
    case 2: fs_symlink("/w/nothing", p); break;
    case 3: fs_symlink("/w/nothing/at/all", p); break;
    case 4: p = "/w/nothing/at/all"; break;
    case 5: p = "/w/other/file/db"; break;
    case 6: p = ""; break;
    case 7: fs_symlink("/w/p", p); break;
  }
  fs_chdir(item == 6 ? "/w/other" : "/");
  h = fs_tree_hash("/", NULL);
  for (i = 0; i < 2; i++) {
    urkel_errno = 0;
    if (item == 6 && open)
      mc_prune(); /* opens a database in the current directory */
    if (open) {
      urkel_t *db = urkel_open(p);
      ok = db != NULL;
      if (ok)
        urkel_close(db);
    } else {
      ok = urkel_destroy(p);
    }
    if (ok)
      mc_fail("%s succeeds on something that is no directory (%s)", open ? "open" : "destroy", p);
    if (fs_tree_hash("/", NULL) != h)
      mc_fail("%s changes something where no database is", open ? "open" : "destroy");
    if (urkel_errno == 0)
      mc_fail("a failed call reports no error");
  }
  mc_trans(2);
  mc_state(item);
  check_clean("after failed calls");
}
PART(c16_odd, "C16", "c16-odd", odd_items, odd_run,
  "opening and destroying where a file, a link to a file, a dangling link or nothing is: refused without changing anything",
  {NULL}, FL_ASAN, 0);
PART(c27_c16_odd, "C27", "c27-odd", odd_items, odd_run,
  "in the Windows port: " "opening and destroying where a file, a link to a file, a dangling link or nothing is: refused without changing anything", {NULL}, FL_WIN, 0);

/* A link to the database's directory. */
static long link_items(void) { return S_N; }
static void
link_run(long item) {
  uint64_t out;
  int i;
  if (item == S_MISSING)
    mc_prune();
  make_state(item);
  around();
  fs_symlink(db_path, "/w/link");
  out = outside();
  for (i = 0; i < 2; i++) {
    int ok = urkel_destroy("/w/link");
    mc_trans(1);
    if (ok)
      mc_fail("destroy of a link to the directory reports success");
    if (outside() != out)
      mc_fail("destroy of a link to the directory changes something outside the database");
    if (fs_type(db_path) != 'd')
      mc_fail("the directory behind the link is gone though destroy failed");
  }
  mc_state(item);
  if (!urkel_destroy(db_path) || fs_exists(db_path))
    mc_fail("the directory behind the link cannot be destroyed: %d", urkel_errno);
  check_clean("afterwards");
}
PART(c16_link, "C16", "c16-link", link_items, link_run,
  "destroying a symbolic link to a database in each state: fails, and touches nothing outside the database",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* No call touches anything outside the directory                       */
/* ------------------------------------------------------------------ */

static const char *bad_sc;
static char bad_path[300];

static void
on_sys(const struct sc *sc, struct act *a) {
  size_t n = strlen(db_path);
  (void)a;
  if (!sc->mutating && sc->kind != SC_OPEN && sc->kind != SC_OPENDIR)
    return;
  if (sc->path == NULL || sc->path[0] == 0)
    return;
  if (strncmp(sc->path, db_path, n) == 0 && (sc->path[n] == 0 || sc->path[n] == '/') && strstr(sc->path, "..") == NULL)
    return;
  if (strncmp(sc->path, "/dev/", 5) == 0 || (!sc->mutating && strncmp(sc->path, "/proc/", 6) == 0))
    return;
  bad_sc = sc_names[sc->kind];
  snprintf(bad_path, sizeof(bad_path), "%.290s", sc->path);
}

static const uint32_t all_mask = A(OP_TXNEW) | A(OP_TXFREE) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXGET) | A(OP_TXPROVE) | A(OP_TXITER) |
  A(OP_TXCLEAR) | A(OP_TXINJ) | A(OP_TXCOMMIT) | A(OP_INS) | A(OP_REM) | A(OP_PROVE) | A(OP_ITER) | A(OP_INJ) |
  A(OP_REOPEN) | A(OP_OPEN) | A(OP_CLOSE) | A(OP_DESTROY);

#define FAN 64
static long touch_items(void) { return 3 * FAN * FAN; }
static void
touch_run(long item) {
  struct op ops[256], o;
  uint64_t out;
  char s[200];
  int i, n, pick, first[2] = {item / FAN % FAN, item % FAN}, cfg = item / FAN / FAN;
  int depth = mc_thorough ? 5 : 4;
  make_state(cfg == 0 ? S_MISSING : cfg == 1 ? S_ONE : S_FILES);
  around();
  out = outside();
  env_hook = on_sys;
  bad_sc = NULL;
  for (i = 0; i < depth; i++) {
    n = ops_enabled(&m, all_mask, 1, 2, 2, ops, 256);
    if (i < 2) {
      if (first[i] >= n)
        mc_prune();
      if (n > FAN)
        mc_internal("fan");
      pick = first[i];
    } else {
      pick = mc_choose(n + 1) - 1;
      if (pick < 0)
        break;
    }
    o = ops[pick];
    op_str(&m, &o, s, sizeof(s));
    step(&R[0], &m, &o);
    mc_trans(1);
    if (bad_sc)
      mc_fail("%s calls %s on %s", s, bad_sc, bad_path);
    if (outside() != out)
      mc_fail("%s changes something outside the database", s);
    if (o.kind == OP_DESTROY && fs_exists(db_path))
      mc_fail("destroyed, but there");
    mc_state(model_hash(&m) + cfg);
  }
  env_hook = NULL;
}
PART(c16_touch, "C16", "c16-touch", touch_items, touch_run,
  "every sequence of up to 4 (thorough 5) operations (all kinds, with opening, closing and destroying) beginning with a missing, a small and a many-file database: no call opens or changes anything outside the directory",
  {NULL}, FL_ASAN, 0);
PART(c27_c16_touch, "C27", "c27-touch", touch_items, touch_run,
  "in the Windows port: " "every sequence of up to 4 (thorough 5) operations (all kinds, with opening, closing and destroying) beginning with a missing, a small and a many-file database: no call opens or changes anything outside the directory", {NULL}, FL_WIN, 0);

/* ------------------------------------------------------------------ */
/* Failing calls                                                        */
/* ------------------------------------------------------------------ */

static long flt16_items(void) { return S_N * 3; }
static void
flt16_run(long item) {
  struct fent f = {"x", F_FILE, 0};
  int s = item % S_N, with = item / S_N, ok;
  uint64_t out, h = 0;
  make_state(s);
  around();
  if (s == S_MISSING && with)
    mc_prune();
  if (with) {
    if (with == 2)
      f = (struct fent){"00000000001", F_FULLDIR, 0};
    foreign(f.name, f.kind);
    h = fent_hash(&f);
  }
  out = outside();
  flt_budget = mc_thorough ? 3 : 2;
  flt_fired = 0;
  flt_begin();
  flt_arm(1, 1);
  urkel_errno = 0;
  ok = urkel_destroy(db_path);
  flt_arm(0, 0);
  mc_trans(1);
  if (outside() != out)
    mc_fail("a destroy with failing calls changes something outside the database");
  if (with && fent_hash(&f) != h)
    mc_fail("a destroy with failing calls removes or changes %s", f.name);
  if (ok && fs_exists(db_path))
    mc_fail("a destroy with failing calls reports success, but the directory is there");
  if (!ok && urkel_errno == 0)
    mc_fail("a failed destroy reports no error");
  check_clean("after a destroy with failing calls");
  mc_state(mc_hash(3, &item, sizeof(item)) + env_fs_hash());
  if (s == S_MISSING || ok)
    return;
  /* Again, without failures. */
  if (with)
    remove_foreign(&f);
  if (!urkel_destroy(db_path) || fs_exists(db_path))
    mc_fail("after a destroy that failed, another does not succeed: %d", urkel_errno);
  fresh();
  if (outside() != out)
    mc_fail("something outside the database was changed");
}
PART(c16_flt, "C16", "c16-fault", flt16_items, flt16_run,
  "destroying a database in each state, also with foreign files, with every one and two (thorough three) failing, interrupted or lastingly failing system calls: success only when all is gone, nothing else touched, and another destroy succeeds",
  {"injected failures"}, FL_ASAN, 0);
PART(c27_c16_flt, "C27", "c27-refused", flt16_items, flt16_run,
  "in the Windows port: " "destroying a database in each state, also with foreign files, with every one and two (thorough three) failing, interrupted or lastingly failing system calls: success only when all is gone, nothing else touched, and another destroy succeeds", {"injected failures"}, FL_WIN, 0);
