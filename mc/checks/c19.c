/* C19 - the command-line tool */
#include <ctype.h>
#include "fault.h"
#include "../view.h"

#define DB "/w/db"

/* ------------------------------------------------------------------ */
/* What the tool should do: contents by key, history of roots           */
/* ------------------------------------------------------------------ */

struct crecd { uint8_t key[32]; uint8_t val[1024]; size_t len; };
struct state { int there; int n; struct crecd r[8]; };
static struct state S;                 /* now */
static struct state H[16];             /* what was committed */
static int nH;

static void
st_recs(const struct state *s, struct rec *r) {
  int i, j;
  for (i = 0; i < s->n; i++) {
    struct rec x = {s->r[i].key, s->r[i].val, s->r[i].len};
    for (j = i; j > 0 && memcmp(r[j - 1].key, x.key, 32) > 0; j--)
      r[j] = r[j - 1];
    r[j] = x;
  }
}

static void
st_root(const struct state *s, uint8_t *root) {
  struct rec r[8];
  st_recs(s, r);
  ref_root_recs(r, s->n, root);
}

static struct crecd *
st_find(struct state *s, const uint8_t *key) {
  int i;
  for (i = 0; i < s->n; i++)
    if (memcmp(s->r[i].key, key, 32) == 0)
      return &s->r[i];
  return NULL;
}

static int
hist_find(const uint8_t *root, struct state *out) {
  uint8_t r[32];
  int i;
  memset(r, 0, 32);
  if (memcmp(r, root, 32) == 0) {
    memset(out, 0, sizeof(*out));
    return 1;
  }
  for (i = 0; i < nH; i++) {
    st_root(&H[i], r);
    if (memcmp(r, root, 32) == 0) {
      *out = H[i];
      return 1;
    }
  }
  return 0;
}

static void
committed(void) {
  if (nH == 16)
    mc_internal("history");
  H[nH++] = S;
}

static void
hex(char *d, const uint8_t *p, size_t n, int upper) {
  size_t i;
  for (i = 0; i < n; i++)
    sprintf(d + 2 * i, upper ? "%02X" : "%02x", p[i]);
  d[2 * n] = 0;
}

static int
unhex(const char *s, uint8_t *out, size_t max, size_t *n) {
  size_t l = strlen(s), i;
  if (l % 2 || l / 2 > max)
    return 0;
  for (i = 0; i < l; i += 2) {
    unsigned x;
    if (!isxdigit((unsigned char)s[i]) || !isxdigit((unsigned char)s[i + 1]))
      return 0;
    sscanf(s + i, "%2x", &x);
    out[i / 2] = x;
  }
  *n = l / 2;
  return 1;
}

/* ------------------------------------------------------------------ */
/* A command line, judged                                               */
/* ------------------------------------------------------------------ */

static char *av[48];
static char args_buf[1 << 16];
static size_t args_n;
static int ac;
static const char *cwd;                /* of the tool */
static const char *urkel_path;         /* environment */
static int bare;                       /* the directory is there, but no database */

static void
arg_reset(void) {
  args_n = 0;
  ac = 0;
  av[ac++] = "urkel";
}

static void
arg(const char *s) {
  if (args_n + strlen(s) + 1 > sizeof(args_buf) || ac >= 47)
    mc_internal("arguments");
  av[ac] = strcpy(args_buf + args_n, s);
  args_n += strlen(s) + 1;
  ac++;
}

static char *
shown(void) {
  static char b[700];
  size_t n = 0;
  int i;
  for (i = 0; i < ac && n < 600; i++)
    n += snprintf(b + n, 100, "%s%.80s%s", i ? " " : "", av[i][0] ? av[i] : "''", strlen(av[i]) > 80 ? "..." : "");
  return b;
}

enum { V_ERR, V_USAGE, V_HELP, V_RUN, V_ANY };
struct cmd {
  int verdict;
  int action;
  const char *path;
  int hasroot;
  uint8_t root[32];
  int hash;
  uint8_t key[32];
  uint8_t val[1024];
  size_t vlen;
  uint8_t proof[20000];
  size_t plen;
};
static const char *const actions[] = {"create", "destroy", "info", "root", "get", "insert", "remove", "list", "prove", "verify"};
enum { A_CREATE, A_DESTROY, A_INFO, A_ROOT, A_GET, A_INSERT, A_REMOVE, A_LIST, A_PROVE, A_VERIFY, A_N };
static const int nargs[] = {0, 0, 0, 0, 1, 2, 1, 0, 1, 2};

/* From the usage text. */
static void
parse(struct cmd *c) {
  const char *pos[48];
  size_t n;
  int i, np = 0;
  memset(c, 0, sizeof(*c));
  for (i = 1; i < ac; i++) {
    const char *a = av[i];
    if (!strcmp(a, "-p") || !strcmp(a, "--path")) {
      if (i + 1 >= ac)
        goto err;
      if (c->path) {
        c->verdict = V_ANY;
        return;
      }
      c->path = av[++i];
    } else if (!strcmp(a, "-r") || !strcmp(a, "--root")) {
      if (i + 1 >= ac)
        goto err;
      if (c->hasroot) {
        c->verdict = V_ANY;
        return;
      }
      if (!unhex(av[++i], c->root, 32, &n) || n != 32)
        goto err;
      c->hasroot = 1;
    } else if (!strcmp(a, "-H") || !strcmp(a, "--hash")) {
      c->hash = 1;
    } else if (!strcmp(a, "-h") || !strcmp(a, "--help")) {
      c->verdict = V_HELP;
      return;
    } else if (a[0] == '-') {
      goto err;
    } else {
      pos[np++] = a;
    }
  }
  if (c->path == NULL)
    c->path = urkel_path ? urkel_path : ".";
  if (np == 0) {
    c->verdict = V_USAGE;
    return;
  }
  for (c->action = 0; c->action < A_N; c->action++)
    if (!strcmp(pos[0], actions[c->action]))
      break;
  if (c->action == A_N || np - 1 < nargs[c->action])
    goto err;
  if (np - 1 > nargs[c->action]) {
    c->verdict = V_ANY; /* what is too much is not documented */
    return;
  }
  if (nargs[c->action] >= 1) {
    if (c->hash)
      ref_blake2b(c->key, 32, NULL, 0, pos[1], strlen(pos[1]));
    else if (!unhex(pos[1], c->key, 32, &n) || n != 32)
      goto err;
  }
  if (c->action == A_INSERT && !unhex(pos[2], c->val, 1024, &c->vlen))
    goto err;
  if (c->action == A_VERIFY && !unhex(pos[2], c->proof, sizeof(c->proof), &c->plen))
    goto err;
  if (c->action == A_VERIFY && !c->hasroot)
    goto err;
  c->verdict = V_RUN;
  return;
err:
  c->verdict = V_ERR;
}

static int
same_db(const char *p) {
  if (p[0] == '/')
    return !strcmp(p, DB) || !strcmp(p, DB "/");
  if (!strcmp(cwd, "/w"))
    return !strcmp(p, "db") || !strcmp(p, "./db");
  if (!strcmp(cwd, DB))
    return !strcmp(p, ".") || !strcmp(p, "./") || !strcmp(p, "");
  return 0;
}

static char want_out[1 << 16];

static void
put(const char *fmt, const char *s) {
  size_t n = strlen(want_out);
  snprintf(want_out + n, sizeof(want_out) - n, fmt, s);
}

/* Runs the command line and compares.  faulty: calls may fail, so that an
 * error is always possible. */
static void
run(int faulty) {
  static struct cmd c;
  struct state snap, before = S;
  struct crecd *x;
  struct rec r[8];
  char h[2100];
  uint8_t root[32], raw[8192], val[1024];
  uint64_t all = fs_tree_hash("/", DB "/lock"), outside = fs_tree_hash("/", DB);
  size_t n, vlen;
  int status, ok = 1, i, exists, loose = 0, at = 0;

  parse(&c);
  fs_chdir(cwd);
  if (urkel_path)
    setenv("URKEL_PATH", urkel_path, 1);
  else
    unsetenv("URKEL_PATH");
  want_out[0] = 0;
  if (mc_verbose)
    mc_trace("  %s", shown());
  if (faulty) {
    flt_fired = 0;
    flt_begin();
    flt_arm(1, 0);
  }
  env_cli(ac, av, &status);
  if (faulty)
    flt_arm(0, 0);
  fs_chdir("/");
  unsetenv("URKEL_PATH");
  mc_trans(1);
  if (mc_verbose)
    mc_trace("    exit %d, out '%.200s', err '%.200s'", status, env_out, env_err);
  if (c.verdict == V_ANY)
    return;
  if (c.verdict != V_RUN) {
    if ((c.verdict == V_HELP) != (status == 0))
      mc_fail("'%s' exits with %d", shown(), status);
    if (env_out_len + env_err_len == 0)
      mc_fail("'%s' prints nothing", shown());
    if (c.verdict == V_HELP || c.verdict == V_USAGE) {
      const char *o = env_out_len ? env_out : env_err;
      if (strstr(o, "Usage:") == NULL)
        mc_fail("'%s' prints no usage", shown());
      for (i = 0; i < A_N; i++)
        if (strstr(o, actions[i]) == NULL)
          mc_fail("the usage does not name %s", actions[i]);
      if (!strstr(o, "--path") || !strstr(o, "--root") || !strstr(o, "--hash") || !strstr(o, "--help") || !strstr(o, "URKEL_PATH"))
        mc_fail("the usage lacks an option");
    }
    if (fs_tree_hash("/", DB "/lock") != all)
      mc_fail("'%s' is wrong but changes the database", shown());
    return;
  }
  at = same_db(c.path);
  if (!at && c.action != A_VERIFY)
    mc_internal("path %s", c.path);
  /* what should happen */
  if (c.hasroot && (c.action == A_GET || c.action == A_INFO || c.action == A_LIST || c.action == A_PROVE)) {
    if (!hist_find(c.root, &snap) || !S.there)
      ok = 0;
  } else {
    snap = S;
  }
  if (!S.there && c.hasroot && ok == 0 && hist_find(c.root, &snap)) {
    memset(root, 0, 32);
    ok = memcmp(c.root, root, 32) == 0; /* the empty root of a new database */
  }
  switch (c.action) {
    case A_CREATE:
      S.there = 1;
      break;
    case A_DESTROY:
      ok = S.there;
      if (ok) {
        memset(&S, 0, sizeof(S));
        nH = 0;
      }
      break;
    case A_INFO:
      if (!ok)
        break;
      for (i = 0, n = 0; i < snap.n; i++)
        n += 32 + snap.r[i].len;
      st_root(&S, root);
      hex(h, root, 32, 0);
      snprintf(want_out, sizeof(want_out), "Items: %d\nSize:  %zu\nRoot:  %s\n", snap.n, n, h);
      loose = c.hasroot ? 2 : 0;
      break;
    case A_ROOT:
      st_root(&S, root);
      hex(h, root, 32, 0);
      put("%s\n", h);
      loose = c.hasroot ? 1 : 0;
      break;
    case A_GET:
      x = ok ? st_find(&snap, c.key) : NULL;
      ok = x != NULL;
      if (ok) {
        hex(h, x->val, x->len, 0);
        put("%s\n", h);
      }
      break;
    case A_INSERT:
      ok = c.vlen <= 1023;
      if (!ok)
        break;
      x = st_find(&S, c.key);
      if (x == NULL)
        x = &S.r[S.n++];
      memcpy(x->key, c.key, 32);
      memcpy(x->val, c.val, c.vlen);
      x->len = c.vlen;
      break;
    case A_REMOVE:
      x = st_find(&S, c.key);
      ok = x != NULL;
      if (ok)
        *x = S.r[--S.n];
      break;
    case A_LIST:
      if (!ok)
        break;
      st_recs(&snap, r);
      for (i = 0; i < snap.n; i++) {
        hex(h, r[i].key, 32, 0);
        put("%s\n", h);
      }
      break;
    case A_PROVE:
      if (!ok)
        break;
      st_recs(&snap, r);
      n = ref_prove(r, snap.n, c.key, raw);
      hex(want_out, raw, n, 0);
      put("%s\n", "");
      break;
    case A_VERIFY:
      ok = ref_verify(c.proof, c.plen, c.key, c.root, &exists, val, &vlen) == 0;
      if (ok && exists) {
        hex(h, val, vlen, 0);
        put("%s\n", h);
      }
      break;
  }
  if (faulty && flt_fired && ok && status != 0) {
    if (env_err_len == 0 && env_out_len == 0)
      mc_fail("'%s' fails without a message", shown());
    S = before;
    return;
  }
  if (ok != (status == 0))
    mc_fail("'%s' exits with %d; expected %s%s%.100s", shown(), status, ok ? "success" : "failure", env_err_len ? ": " : "", env_err);
  if (!ok) {
    S = before;
    if (env_err_len == 0 && env_out_len == 0)
      mc_fail("'%s' fails without a message", shown());
    if (env_out_len)
      mc_fail("'%s' fails but prints '%.100s'", shown(), env_out);
  } else {
    if (env_err_len)
      mc_fail("'%s' succeeds but complains: %.100s", shown(), env_err);
    if (loose == 1) {
      hex(h, c.root, 32, 0);
      strcat(h, "\n");
      if (strcmp(env_out, want_out) != 0 && strcmp(env_out, h) != 0)
        mc_fail("'%s' prints '%.200s'; expected '%.200s'", shown(), env_out, want_out);
    } else if (loose == 2) {
      char *p = strstr(want_out, "Root:");
      if (strncmp(env_out, want_out, p - want_out) != 0)
        mc_fail("'%s' prints '%.200s'; expected '%.200s'", shown(), env_out, want_out);
    } else if (strcmp(env_out, want_out) != 0) {
      mc_fail("'%s' prints '%.200s'; expected '%.200s'", shown(), env_out, want_out);
    }
  }
  if (fs_tree_hash("/", DB) != outside)
    mc_fail("'%s' changes something outside the database", shown());
  if (c.action == A_DESTROY && ok && fs_exists(DB))
    mc_fail("'%s' leaves the directory", shown());
  if (bare && c.action != A_VERIFY) {
    ;
  } else if (before.there || c.action == A_VERIFY || c.action == A_DESTROY) {
    int changes = ok && (c.action == A_INSERT || c.action == A_REMOVE || c.action == A_DESTROY);
    if (!changes && fs_tree_hash("/", DB "/lock") != all)
      mc_fail("'%s' changes the stored files", shown());
  } else if (fs_exists(DB)) {
    S.there = 1; /* opening creates it; not documented either way */
  }
  if (ok && (c.action == A_INSERT || c.action == A_REMOVE)) {
    S.there = 1;
    committed();
  }
}

/* The database, as the library shows it. */
static void
inspect(void) {
  urkel_t *db;
  urkel_iter_t *it;
  struct rec r[8];
  uint8_t root[32], want[32], key[32], val[1023];
  size_t len;
  int i;
  if (!S.there) {
    if (fs_exists(DB) && fs_list(DB, (char[8][256]){{0}}, 8) > 0)
      mc_fail("there should be no database");
    return;
  }
  db = urkel_open(DB);
  if (db == NULL)
    mc_fail("the database does not open any more: %d", urkel_errno);
  st_root(&S, want);
  urkel_root(db, root);
  if (memcmp(root, want, 32) != 0)
    mc_fail("wrong root in the database");
  st_recs(&S, r);
  it = urkel_iterate(db, NULL);
  if (it == NULL)
    mc_fail("no iterator: %d", urkel_errno);
  for (i = 0; i < S.n; i++) {
    if (!urkel_iter_next(it, key, val, &len))
      mc_fail("record %d is missing in the database", i);
    if (memcmp(key, r[i].key, 32) || len != r[i].len || memcmp(val, r[i].val, len))
      mc_fail("record %d of the database is wrong", i);
  }
  if (urkel_iter_next(it, key, val, &len))
    mc_fail("too many records in the database");
  urkel_iter_destroy(it);
  urkel_close(db);
}

/* ------------------------------------------------------------------ */
/* Keys                                                                 */
/* ------------------------------------------------------------------ */

static uint8_t K[4][32];
static char KX[4][65];
static const char *const KS[4] = {"foo", "bar", "", "key with spaces"};

static void
keys(void) {
  int i;
  for (i = 0; i < 4; i++) {
    memset(K[i], 0x3c, 32);
    K[i][0] ^= i == 1 ? 1 : 0;
    K[i][31] ^= i == 2 ? 1 : 0;
    K[i][15] ^= i == 3 ? 0xff : 0;
    hex(KX[i], K[i], 32, 0);
  }
}

static void
start(void) {
  env_limits_fast();
  env_reset();
  keys();
  fs_mkdir("/w");
  fs_mkdir("/w/other");
  fs_write("/w/other/f", "f", 1);
  memset(&S, 0, sizeof(S));
  nH = 0;
  cwd = "/";
  urkel_path = NULL;
  bare = 0;
}

static void
cmdl(const char *a, const char *b, const char *c, const char *d) {
  arg_reset();
  arg(a);
  if (b)
    arg(b);
  if (c)
    arg(c);
  if (d)
    arg(d);
  arg("-p");
  arg(DB);
  run(0);
}

/* three commits */
static void
populate(void) {
  cmdl("create", NULL, NULL, NULL);
  cmdl("insert", KX[0], "00ff10", NULL);
  cmdl("insert", KX[1], "", NULL);
  cmdl("insert", "foo", "deadbeef", "-H");
}

/* ------------------------------------------------------------------ */
/* One command line: every combination of classes of its parts          */
/* ------------------------------------------------------------------ */

enum { R_NONE, R_CUR, R_OLD, R_UNKNOWN, R_ZERO, R_UPPER, R_SHORT, R_LONG, R_NOHEX, R_EMPTY, R_MISSING, R_N };

static char rootx[140];
static const char *
root_arg(int k) {
  uint8_t r[32];
  st_root(&S, r);
  switch (k) {
    case R_OLD:
      if (nH)
        st_root(&H[0], r);
      break;
    case R_UNKNOWN: memset(r, 0xa7, 32); break;
    case R_ZERO: memset(r, 0, 32); break;
  }
  hex(rootx, r, 32, k == R_UPPER);
  if (k == R_SHORT)
    rootx[62] = 0;
  if (k == R_LONG)
    strcat(rootx, "00");
  if (k == R_NOHEX)
    rootx[13] = 'g';
  if (k == R_EMPTY)
    rootx[0] = 0;
  return rootx;
}

#define NKEYCL 14
static const char *
key_arg(int k, char *b) {
  strcpy(b, KX[0]);
  switch (k) {
    case 0: break;
    case 1: strcpy(b, KX[1]); break;
    case 2: strcpy(b, KX[2]); break;
    case 3: hex(b, K[0], 32, 1); break;
    case 4: b[63] = 0; break;
    case 5: b[62] = 0; break;
    case 6: strcat(b, "0"); break;
    case 7: strcat(b, "00"); break;
    case 8: b[0] = 'x'; break;
    case 9: b[63] = 'G'; break;
    case 10: b[31] = ' '; break;
    case 11: b[0] = 0; break;
    case 12: strcpy(b, "foo"); break;
    case 13: b[20] = (char)0xe9; break;
  }
  return b;
}

#define NVALCL 10
static char valbuf[5000];
static const char *
val_arg(int k) {
  size_t n;
  switch (k) {
    case 0: return "00";
    case 1: return "";
    case 2: return "DeadBEEF";
    case 3: return "123";
    case 4: return "0g";
    case 5: return "zz";
    default:
      n = k == 6 ? 1023 * 2 : k == 7 ? 1024 * 2 : k == 8 ? 1025 * 2 : 2047;
      memset(valbuf, 'c', n);
      valbuf[n] = 0;
      return valbuf;
  }
}

#define NPROOFCL 8
static char proofx[20000];
static const char *
proof_arg(int k, const uint8_t *key) {
  struct rec r[8];
  uint8_t raw[8192];
  size_t n;
  st_recs(&S, r);
  n = ref_prove(r, S.n, key, raw);
  hex(proofx, raw, n, k == 1);
  switch (k) {
    case 2: proofx[2 * n - 2] = 0; break;
    case 3: proofx[2 * n - 1] = 0; break;
    case 4: strcat(proofx, "00"); break;
    case 5: proofx[2 * n - 1] ^= 'a' < proofx[2 * n - 1] ? 3 : 1; break;
    case 6: proofx[0] = 0; break;
    case 7: proofx[3] = '?'; break;
  }
  return proofx;
}

/* Puts options at a position: 0 first, 1 after the action, 2 last. */
static void
opts(int where, int at, int path, const char *root, int rkind, int hash, int lng) {
  if (where != at)
    return;
  if (hash)
    arg(lng ? "--hash" : "-H");
  if (path == 0) {
    arg(lng ? "--path" : "-p");
    arg(DB);
  }
  if (rkind != R_NONE && rkind != R_MISSING) {
    arg(lng ? "--root" : "-r");
    arg(root);
  }
}

static long one_items(void) { return 2L * A_N * R_N * 4 * 2; }
static void
one_run(long item) {
  int there = item % 2, action = item / 2 % A_N, rk = item / 2 / A_N % R_N, path = item / 2 / A_N / R_N % 4, hash = item / 2 / A_N / R_N / 4;
  int where = mc_choose(3), lng = where == 1, kc = 0, vc = 0, pc = 0, have = nargs[action];
  const char *root;
  char kb[100];
  uint8_t key[32];
  size_t n;
  if (hash && nargs[action] == 0)
    mc_prune();
  if (rk != R_NONE && (action == A_CREATE || action == A_DESTROY || action == A_INSERT || action == A_REMOVE))
    mc_prune(); /* what a snapshot means there is not documented */
  if (have >= 1) {
    kc = mc_choose(NKEYCL);
    if (action == A_INSERT)
      vc = kc < 4 || kc > 10 ? mc_choose(NVALCL) : 0;
    if (action == A_VERIFY)
      pc = kc < 4 || kc > 10 ? mc_choose(NPROOFCL) : 0;
    if (kc == 0)
      have = mc_choose(have + 1) ? nargs[action] : mc_choose(nargs[action] + 1);
  }
  start();
  if (there)
    populate();
  root = root_arg(rk);
  cwd = "/";
  switch (path) {
    case 1: urkel_path = DB; break;
    case 2:
      cwd = "/w";
      urkel_path = "db";
      break;
    case 3:
      if (!there)
        fs_mkdir(DB);
      bare = !there;
      S.there = 1;
      cwd = DB;
      break;
  }
  if (path == 3 && !there && action == A_DESTROY)
    mc_prune(); /* an empty directory: either way */
  arg_reset();
  opts(where, 0, path, root, rk, hash, lng);
  arg(actions[action]);
  opts(where, 1, path, root, rk, hash, lng);
  key_arg(kc, kb);
  if (nargs[action] >= 1 && have >= 1) {
    arg(kb);
    if (action == A_INSERT && have >= 2)
      arg(val_arg(vc));
    if (action == A_VERIFY && have >= 2) {
      if (hash)
        ref_blake2b(key, 32, NULL, 0, kb, strlen(kb));
      else if (!unhex(kb, key, 32, &n) || n != 32)
        memset(key, 1, 32);
      arg(proof_arg(pc, key));
    }
  }
  opts(where, 2, path, root, rk, hash, lng);
  if (rk == R_MISSING)
    arg(lng ? "--root" : "-r");
  if (action == A_DESTROY && path == 3)
    cwd = DB;
  run(0);
  cwd = "/";
  if (path != 3 || there)
    inspect();
  mc_state(mc_hash(item, (int[]){where, kc, vc, pc, have}, 5 * sizeof(int)));
  if (mc_want_sample())
    mc_sample("%s", shown());
}
PART(c19_one, "C19", "c19-one", one_items, one_run,
  "every action with every class of key (14), value (10), proof (8), root option (11) and way to give the path (4), hashed or not, options first, in the middle or last, short or long, on an existing and a missing database",
  {NULL}, FL_ASAN | FL_MSAN, 0);

/* Words in any order. */
static long word_items(void) { return 26 * 26; }
static void
word_run(long item) {
  int i, n = 4, w;
  start();
  populate();
  cwd = DB;
  arg_reset();
  for (i = 0; i < n; i++) {
    if (i == 0)
      w = item % 26;
    else if (i == 1)
      w = item / 26;
    else
      w = mc_choose(27) - 1;
    if (w < 0)
      break;
    if (w < A_N) {
      if (w == A_DESTROY)
        break;
      arg(actions[w]);
    } else {
      switch (w) {
        case 10: arg("-p"); break;
        case 11: arg("--path"); break;
        case 12: arg("-r"); break;
        case 13: arg("--root"); break;
        case 14: arg("-H"); break;
        case 15: arg("--hash"); break;
        case 16: arg("-h"); break;
        case 17: arg("--help"); break;
        case 18: arg("-x"); break;
        case 19: arg("--"); break;
        case 20: arg("-"); break;
        case 21: arg(KX[0]); break;
        case 22: arg(""); break;
        case 23: arg("foo"); break;
        case 24: arg("."); break;
        case 25: arg("Get"); break;
      }
    }
  }
  { /* only where the path is that of the database, or not used */
    static struct cmd c;
    parse(&c);
    if (c.verdict == V_RUN && (!same_db(c.path) || (c.hasroot && (c.action == A_INSERT || c.action == A_REMOVE || c.action == A_CREATE))))
      mc_prune();
    if (c.verdict == V_ANY)
      mc_count(0, 1);
  }
  {
    static struct cmd c;
    int any;
    uint64_t outside = fs_tree_hash("/", DB);
    parse(&c);
    any = c.verdict == V_ANY;
    run(0);
    if (any) {
      /* whatever it does, it does to the database only */
      if (c.path == NULL || same_db(c.path))
        if (fs_tree_hash("/", DB) != outside)
          mc_fail("'%s' changes something outside the database", shown());
    } else {
      cwd = "/";
      inspect();
    }
  }
  mc_state(mc_hash(item, args_buf, args_n));
}
PART(c19_word, "C19", "c19-words", word_items, word_run,
  "every command line of up to four words out of 26 (actions, options, keys, junk)",
  {"undocumented command lines, run but not judged"}, FL_ASAN, 0);

/* Many arguments. */
static long many_items(void) { return 45; }
static void
many_run(long item) {
  uint64_t h;
  int i, st, a = mc_choose(A_N);
  start();
  populate();
  cwd = "/";
  h = fs_tree_hash("/", DB);
  arg_reset();
  arg(actions[a]);
  for (i = 0; i < item; i++)
    arg(KX[i % 4]);
  fs_chdir(DB);
  env_cli(ac, av, &st);
  fs_chdir("/");
  mc_trans(1);
  if (fs_tree_hash("/", DB) != h)
    mc_fail("'%s' changes something outside the database", shown());
  mc_state(mc_hash(a, &item, sizeof(item)));
}
PART(c19_many, "C19", "c19-many", many_items, many_run,
  "every action with up to 44 arguments: no crash, nothing outside the database changed",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Sequences                                                            */
/* ------------------------------------------------------------------ */

#define NSEQ 22
static void
seq_cmd(int k) {
  uint8_t r[32];
  char rx[65];
  const char *rootopt = NULL;
  arg_reset();
  switch (k) {
    case 0: arg("create"); break;
    case 1: arg("destroy"); break;
    case 2: arg("info"); break;
    case 3: arg("root"); break;
    case 4: arg("list"); break;
    case 5: arg("insert"); arg(KX[0]); arg("01"); break;
    case 6: arg("insert"); arg(KX[0]); arg("0203"); break;
    case 7: arg("insert"); arg(KX[1]); arg(""); break;
    case 8: arg("-H"); arg("insert"); arg("foo"); arg("deadbeef"); break;
    case 9: arg("insert"); arg("bar"); arg("-H"); arg("01020304"); break;
    case 10: arg("remove"); arg(KX[0]); break;
    case 11: arg("remove"); arg(KX[1]); break;
    case 12: arg("remove"); arg("foo"); arg("--hash"); break;
    case 13: arg("get"); arg(KX[0]); break;
    case 14: arg("get"); arg("foo"); arg("-H"); break;
    case 15: arg("prove"); arg(KX[0]); break;
    case 16: arg("prove"); arg("bar"); arg("-H"); break;
    case 17: arg("list"); rootopt = "-r"; break;
    case 18: arg("get"); arg(KX[0]); rootopt = "--root"; break;
    case 19: arg("prove"); arg(KX[0]); rootopt = "-r"; break;
    case 20: arg("info"); rootopt = "-r"; break;
    case 21: arg("verify"); arg(KX[0]); arg(proof_arg(0, K[0])); rootopt = "-r"; break;
  }
  if (rootopt) {
    if (k == 21)
      st_root(&S, r);
    else if (nH)
      st_root(&H[nH / 2 - (nH > 1)], r);
    else
      memset(r, 0, 32);
    hex(rx, r, 32, 0);
    arg(rootopt);
    arg(rx);
  }
}

static long seq19_items(void) { return NSEQ * NSEQ; }
static void
seq19_run(long item) {
  int i, k, depth = mc_thorough ? 5 : 4;
  start();
  cwd = "/w";
  for (i = 0; i < depth; i++) {
    k = i == 0 ? item % NSEQ : i == 1 ? item / NSEQ : mc_choose(NSEQ);
    seq_cmd(k);
    switch (i % 3) {
      case 0:
        arg("-p");
        arg("db");
        urkel_path = "/w/nowhere/at/all";
        break;
      case 1: urkel_path = DB; break;
      default:
        urkel_path = "/w/nowhere/at/all";
        arg("--path");
        arg("./db");
        break;
    }
    run(0);
    mc_state(mc_hash(k, &S, sizeof(S)));
  }
  inspect();
}
PART(c19_seq, "C19", "c19-seq", seq19_items, seq19_run,
  "every sequence of four (thorough five) of 22 command lines, beginning without a database: output, exit status and stored contents",
  {NULL}, FL_ASAN, 0);

/* Values of every length go in and come out. */
static long val_items(void) { return 1025; }
static void
val19_run(long item) {
  static char hx[2100];
  uint8_t v[1024], r[32];
  char rx[65], px[9000];
  int i, up = mc_choose(2);
  start();
  for (i = 0; i < (int)item; i++)
    v[i] = i * 7 + (i >> 8) + item;
  hex(hx, v, item, up);
  cmdl("insert", KX[1], "77", NULL);
  cmdl("insert", KX[0], hx, NULL);
  cmdl("get", KX[0], NULL, NULL);
  cmdl("insert", "x", hx, "-H");
  cmdl("get", "x", "--hash", NULL);
  cmdl("info", NULL, NULL, NULL);
  cmdl("prove", KX[0], NULL, NULL);
  if (item <= 1023) {
    st_root(&S, r);
    hex(rx, r, 32, up);
    snprintf(px, sizeof(px), "%s", env_out);
    px[strcspn(px, "\n")] = 0;
    arg_reset();
    arg("verify");
    arg(KX[0]);
    arg(px);
    arg("-r");
    arg(rx);
    run(0);
    arg_reset();
    arg("verify");
    arg(KX[2]);
    arg(px);
    arg("-r");
    arg(rx);
    run(0);
  }
  inspect();
  mc_state(mc_hash(up, &item, sizeof(item)));
}
PART(c19_val, "C19", "c19-values", val_items, val19_run,
  "values of every length from 0 to 1024 inserted, read back, proved and verified by the tool, in both cases of hexadecimal",
  {NULL}, FL_ASAN | FL_MSAN, 0);

/* Every character in a hexadecimal argument. */
static long chr_items(void) { return 255; }
static void
chr_run(long item) {
  char k[65], v[5] = "0000";
  int pos;
  start();
  cmdl("insert", KX[1], "77", NULL);
  for (pos = 0; pos < 64; pos++) {
    strcpy(k, KX[0]);
    k[pos] = item + 1;
    if (pos == 0 && k[0] == '-')
      continue;
    cmdl("get", k, NULL, NULL);
  }
  for (pos = 0; pos < 4; pos++) {
    strcpy(v, "1234");
    v[pos] = item + 1;
    if (pos == 0 && v[0] == '-')
      continue;
    cmdl("insert", KX[0], v, NULL);
    cmdl("get", KX[0], NULL, NULL);
    S.n = S.n;
    if (st_find(&S, K[0]))
      cmdl("remove", KX[0], NULL, NULL);
    nH = 0;
    committed();
  }
  inspect();
  mc_state(item);
}
PART(c19_chr, "C19", "c19-chars", chr_items, chr_run,
  "every character at every place of a hexadecimal key and value: digits of both cases mean what they should, all others are refused",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* The examples of the documentation, literally                         */
/* ------------------------------------------------------------------ */

static void
expect(const char *out, int status, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) {
  const char *w[] = {a, b, c, d, e, f};
  int i, st;
  arg_reset();
  for (i = 0; i < 6 && w[i]; i++)
    arg(w[i]);
  fs_chdir("/w/cwd");
  env_cli(ac, av, &st);
  fs_chdir("/");
  mc_trans(1);
  if (st != status)
    mc_fail("'%s' exits with %d", shown(), st);
  if (strcmp(env_out, out) != 0)
    mc_fail("'%s' prints '%s', not '%s'", shown(), env_out, out);
}
#define ZERO "0000000000000000000000000000000000000000000000000000000000000000\n"
#define FOO "1da2776eaa254ef65aeeee1f37f61c06bac2e82e221d37da21190191218f6631\n"
#define BAR "497b751637ff244ab969a965f8d9dc7623f18d649d012276dfb317b0e38b9bec"
#define PRF "03c00100800280a6386fa1781a92e3905f718d4e0ea0d757abe962eefdd52a23d2ad6e1409fd8a0400deadbeef"
static long doc_items(void) { return 1; }
static void
doc_run(long item) {
  start();
  fs_mkdir("/w/cwd");
  unsetenv("URKEL_PATH");
  expect("", 0, "create", NULL, NULL, NULL, NULL, NULL);
  expect(ZERO, 0, "root", NULL, NULL, NULL, NULL, NULL);
  expect("", 0, "insert", "foo", "deadbeef", "-H", NULL, NULL);
  expect(FOO, 0, "root", NULL, NULL, NULL, NULL, NULL);
  expect("", 0, "insert", "bar", "01020304", "-H", NULL, NULL);
  expect(BAR "\n", 0, "root", NULL, NULL, NULL, NULL, NULL);
  expect("01020304\n", 0, "get", "bar", "-H", NULL, NULL, NULL);
  expect(PRF "\n", 0, "prove", "foo", "-H", NULL, NULL, NULL);
  expect("deadbeef\n", 0, "verify", "foo", "-H", PRF, "--root", BAR);
  expect("Items: 2\nSize:  72\nRoot:  " BAR "\n", 0, "info", NULL, NULL, NULL, NULL, NULL);
  expect("", 0, "remove", "bar", "-H", NULL, NULL, NULL);
  expect(FOO, 0, "root", NULL, NULL, NULL, NULL, NULL);
  expect("01020304\n", 0, "get", "bar", "-H", "-r", BAR, NULL);
  expect("", 0, "remove", "foo", "-H", NULL, NULL, NULL);
  expect(ZERO, 0, "root", NULL, NULL, NULL, NULL, NULL);
  expect("", 1, "get", "foo", "-H", NULL, NULL, NULL);
  expect("", 0, "destroy", NULL, NULL, NULL, NULL, NULL);
  if (fs_exists("/w/cwd"))
    mc_fail("destroyed, but there");
  mc_state(1);
}
PART(c19_doc, "C19", "c19-doc", doc_items, doc_run,
  "the README's session, literally", {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Failing calls                                                        */
/* ------------------------------------------------------------------ */

static long flt19_items(void) { return NSEQ * 2; }
static void
flt19_run(long item) {
  start();
  if (item / NSEQ)
    populate();
  if (item / NSEQ)
    cmdl("insert", KX[3], "01", NULL);
  flt_budget = mc_thorough ? 2 : 1;
  flt_fired = flt_munmap = 0;
  seq_cmd(item % NSEQ);
  arg("-p");
  arg(DB);
  run(1);
  if (item % NSEQ == 1)
    return; /* what a failed destroy leaves: C16 */
  if (!flt_fired || item / NSEQ)
    inspect();
  mc_state(mc_hash(item, &S, sizeof(S)) + flt_fired);
}
PART(c19_flt, "C19", "c19-fault", flt19_items, flt19_run,
  "22 command lines on an existing and a missing database with every single (thorough: two) failing system calls: the status tells whether it was done",
  {"faults"}, FL_ASAN, 0);
