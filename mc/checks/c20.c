/* C20 - paths */
#include "fault.h"
#include "../view.h"

static struct universe u;
static struct model m;

/* Lexically: '.', '..' and separators. */
static void
resolve(const char *cwd, const char *p, char *out, size_t max) {
  char buf[20000];
  const char *s;
  size_t n = 0;
  if (p != NULL && p[0] == '/')
    snprintf(buf, sizeof(buf), "%s", p);
  else
    snprintf(buf, sizeof(buf), "%s/%s", cwd, p ? p : "");
  out[0] = 0;
  for (s = buf; *s;) {
    size_t l = strcspn(s, "/");
    if (l == 0) {
      s++;
      continue;
    }
    if (l == 1 && s[0] == '.') {
      ;
    } else if (l == 2 && s[0] == '.' && s[1] == '.') {
      while (n > 0 && out[n - 1] != '/')
        n--;
      if (n > 0)
        n--;
      out[n] = 0;
    } else {
      if (n + l + 2 > max)
        mc_internal("resolve");
      out[n++] = '/';
      memcpy(out + n, s, l);
      n += l;
      out[n] = 0;
    }
    s += l;
  }
  if (n == 0)
    strcpy(out, "/");
}

static void
parent(const char *p, char *out) {
  char *s;
  strcpy(out, p);
  s = strrchr(out, '/');
  if (s == out)
    out[1] = 0;
  else
    *s = 0;
}

static uint64_t
tree_without(const char *dir) {
  /* "/" cannot be left out: nothing to compare then */
  return strcmp(dir, "/") == 0 ? 0 : fs_tree_hash("/", dir);
}

/* Opens by one spelling, uses, moves about, reads by another, destroys. */
static void
use(const char *cwd, const char *spelling, const char *canon, const char *elsewhere, int must) {
  struct op o;
  struct real *r = &R[0];
  char probe[5000];
  uint64_t all = fs_tree_hash("/", NULL), rest = tree_without(canon);
  int i, had = fs_type(canon) == 'd', others;
  char names[64][256];
  const char *save = db_path;

  memset(&o, 0, sizeof(o));
  model_init(&m, &u);
  fs_chdir(cwd);
  urkel_errno = 0;
  r->db = urkel_open(spelling);
  mc_trans(1);
  if (r->db == NULL) {
    if (must == 1)
      mc_fail("open('%.100s') in %.100s fails: %d", spelling ? spelling : "NULL", cwd, urkel_errno);
    if (urkel_errno == 0)
      mc_fail("a failed open reports no error");
    if (fs_tree_hash("/", NULL) != all)
      mc_fail("a refused path ('%.100s', %zu bytes) leaves something", spelling, strlen(spelling));
    if (urkel_destroy(spelling))
      mc_fail("a path that cannot be opened ('%.100s', %zu bytes) can be destroyed", spelling, strlen(spelling));
    if (fs_tree_hash("/", NULL) != all)
      mc_fail("destroying a refused path ('%.100s') changes something", spelling);
    if (urkel__corrupt(spelling))
      mc_fail("a path that cannot be opened ('%.100s') can be corrupted", spelling);
    fs_chdir("/");
    check_clean("after refused paths");
    return;
  }
  if (must == 0)
    mc_fail("open('%.100s') in %.100s succeeds", spelling ? spelling : "NULL", cwd);
  if (fs_type(canon) != 'd')
    mc_fail("open('%.100s') in %.100s does not create %.200s", spelling, cwd, canon);
  snprintf(probe, sizeof(probe), "%s/%010d", strcmp(canon, "/") ? canon : "", 1);
  m.open = 1;
  o.kind = OP_INS;
  step(r, &m, &o);
  if (fs_type(probe) != 'f')
    mc_fail("open('%.100s') in %.100s: no data in %.200s", spelling ? spelling : "NULL", cwd, canon);
  /* elsewhere, with files made and opened later */
  fs_chdir(elsewhere);
  o.key = 1;
  o.val = 1;
  step(r, &m, &o);
  o.key = 2;
  step(r, &m, &o);
  observe(r, &m, OBS_DB);
  /* it is the same one for another process */
  env_set_proc(1);
  fs_chdir("/");
  if (urkel_open(canon) != NULL)
    mc_fail("open('%.100s') in %.100s and open('%.100s') are different databases", spelling ? spelling : "NULL", cwd, canon);
  env_set_proc(0);
  urkel_close(r->db);
  r->db = NULL;
  m.open = 0;
  if (strcmp(canon, "/") != 0 && tree_without(canon) != rest)
    mc_fail("open('%.100s') in %.100s changes something outside %.200s", spelling ? spelling : "NULL", cwd, canon);
  /* by its plain name, from elsewhere */
  db_path = canon;
  o.kind = OP_OPEN;
  o.key = o.val = 0;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
  /* and by this one again */
  fs_chdir(cwd);
  r->db = urkel_open(spelling);
  if (r->db == NULL)
    mc_fail("open('%.100s') in %.100s does not succeed again: %d", spelling ? spelling : "NULL", cwd, urkel_errno);
  m.open = 1;
  observe(r, &m, OBS_DB);
  urkel_close(r->db);
  r->db = NULL;
  db_path = save;
  /* destroyed, unless other things are in it */
  others = 0;
  i = fs_list(canon, names, 64);
  while (i-- > 0)
    if (strcmp(names[i], "meta") && strspn(names[i], "0123456789") != 10)
      others++;
  fs_chdir(cwd);
  i = urkel_destroy(spelling);
  mc_trans(1);
  if (others || strcmp(canon, "/") == 0) {
    if (i)
      mc_fail("destroy('%.100s') in %.100s succeeds with other files there", spelling ? spelling : "NULL", cwd);
  } else {
    if (!i)
      mc_fail("destroy('%.100s') in %.100s fails: %d", spelling ? spelling : "NULL", cwd, urkel_errno);
    if (fs_exists(canon))
      mc_fail("destroy('%.100s') in %.100s leaves %.200s", spelling ? spelling : "NULL", cwd, canon);
  }
  fs_chdir("/");
  if (strcmp(canon, "/") != 0 && tree_without(canon) != rest)
    mc_fail("destroy('%.100s') in %.100s changes something outside %.200s", spelling ? spelling : "NULL", cwd, canon);
  (void)had;
  check_clean("afterwards");
}

static const char *const cwds[] = {"/", "/a", "/a/b", "/c"};
static void
setup(void) {
  ou_small(&u, 0, 5);
  env_limits_fast();
  urkel_verify_max_file_size = 200;
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/a");
  fs_mkdir("/a/b");
  fs_mkdir("/c");
  fs_write("/a/f", "file", 4);
}

static const char *const tok[] = {"/", ".", "..", "a", "b", "f", "d"};
#define NTOK ((int)ARRAY_SIZE(tok))
static long spell_items(void) { return 4L * NTOK * NTOK * NTOK + 8; }
static void
spell_run(long item) {
  char p[64] = "", canon[300], up[300];
  int cw, i, k, n = mc_thorough ? 7 : 6, must;
  const char *sp = p;
  cw = item % 4;
  setup();
  if (item >= 4L * NTOK * NTOK * NTOK) {
    sp = item >= 4L * NTOK * NTOK * NTOK + 4 ? NULL : "";
  } else {
    item /= 4;
    for (i = 0; i < n; i++) {
      if (i < 3) {
        k = item % NTOK;
        item /= NTOK;
      } else {
        k = mc_choose(NTOK + 1) - 1;
      }
      if (k < 0)
        break;
      strcat(p, tok[k]);
    }
  }
  resolve(cwds[cw], sp, canon, sizeof(canon));
  parent(canon, up);
  must = fs_type(canon) == 'd' || (fs_type(canon) == 0 && fs_type(up) == 'd');
  use(cwds[cw], sp, canon, cwds[(cw + 1) % 4], must);
  mc_state(mc_hash(cw, p, strlen(p)));
  if (mc_want_sample())
    mc_sample("'%s' in %s is %s", sp ? sp : "NULL", cwds[cw], canon);
}
PART(c20_spell, "C20", "c20-spell", spell_items, spell_run,
  "every path of three to six (thorough seven) of the pieces / . .. a b f d in four current directories, the empty path and none: reaches the directory it names or is refused without a trace; used while moving to other directories, locked against, reopened and destroyed by other spellings",
  {NULL}, FL_ASAN, 0);

/* Short ones. */
static long short_items(void) { return 4; }
static void
short_run(long item) {
  char p[16] = "", canon[300], up[300];
  int i, k, must, n = 1 + mc_choose(2);
  setup();
  for (i = 0; i < n; i++) {
    k = mc_choose(NTOK);
    strcat(p, tok[k]);
  }
  resolve(cwds[item], p, canon, sizeof(canon));
  parent(canon, up);
  must = fs_type(canon) == 'd' || (fs_type(canon) == 0 && fs_type(up) == 'd');
  use(cwds[item], p, canon, cwds[(item + 1) % 4], must);
  mc_state(mc_hash(item, p, strlen(p)));
}
PART(c20_short, "C20", "c20-short", short_items, short_run,
  "every path of one and two pieces", {NULL}, FL_ASAN, 0);
PART(c27_c20_short, "C27", "c27-paths", short_items, short_run,
  "in the Windows port: " "every path of one and two pieces", {NULL}, FL_WIN, 0);

/* ------------------------------------------------------------------ */
/* Lengths                                                              */
/* ------------------------------------------------------------------ */

/* A directory path of exactly n bytes; its parents exist. */
static void
deep(char *out, size_t n) {
  size_t i = 0;
  while (i < n) {
    size_t c = n - i - 1;
    if (c > 200)
      c = c - 200 < 2 ? 150 : 200;
    out[i++] = '/';
    memset(out + i, 'x', c);
    i += c;
    out[i] = 0;
    if (i < n)
      fs_mkdir(out);
  }
}

static const int far[] = {1, 2, 3, 100, 500, 4000, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4110,
                          8180, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 8194, 8200, 9000, 16000};
static long len_items(void) { return 130 + (long)ARRAY_SIZE(far); }
static int
length_of(long item) {
  return item < 130 ? 940 + item : far[item - 130];
}

static void
abs_run(long item) {
  static char p[17000], canon[17000];
  int n = length_of(item), odd = mc_choose(6);
  setup();
  if (n < 2)
    mc_prune();
  if (n < 4096) {
    deep(p, n);
  } else {
    memset(p, 'x', n);
    for (int i = 0; i < n; i += 200)
      p[i] = '/';
    p[n] = 0;
  }
  strcpy(canon, p);
  switch (odd) { /* longer spellings of the same */
    case 1: strcat(p, "/"); break;
    case 2: strcat(p, "/."); break;
    case 3: strcat(p, "/y/.."); break;
    case 4: strcat(p, "////////////////////"); break;
    case 5:
      memmove(p + 3, p, n + 1);
      memcpy(p, "/c/..", 3);
      memcpy(p, "/./", 3);
      break;
  }
  if (n >= 4000) {
    strcpy(canon, p);
    db_path = "/w/db";
    use("/", p, "/nowhere/at/all", "/c", 0);
  } else {
    use("/", p, canon, "/c", n <= 1000 ? 1 : 2);
  }
  mc_state(mc_hash(odd, &n, sizeof(n)));
}
PART(c20_abs, "C20", "c20-absolute", len_items, abs_run,
  "absolute paths of every length from 940 to 1069 bytes, and around 4096 and 8192, in six spellings: up to 1000 bytes they work, beyond they work or are refused without a trace",
  {NULL}, FL_ASAN, 0);

static void
rel_run(long item) {
  static char p[17000], canon[17000], cwd[17000];
  static const int cl[] = {1, 2, 3, 200, 500, 900, 960, 1000, 1010, 1013, 1020, 1024, 1030, 1500, 4000};
  int n = length_of(item), c = cl[mc_choose(ARRAY_SIZE(cl))], form = mc_choose(2), i;
  setup();
  if (c + 2 > n || c >= 4090)
    mc_prune();
  if (n < 4096) {
    deep(canon, n);
  } else {
    memset(canon, 'x', n);
    for (i = 0; i < n; i += 200)
      canon[i] = '/';
    canon[n] = 0;
    if (c > 1) { /* the current directory exists */
      memcpy(cwd, canon, c);
      for (i = 200; i < c; i += 200) {
        cwd[i] = 0;
        fs_mkdir(cwd);
        cwd[i] = '/';
      }
      cwd[c] = 0;
      if (cwd[c - 1] != '/')
        fs_mkdir(cwd);
    }
  }
  memcpy(cwd, canon, c);
  cwd[c] = 0;
  if (c == 1) {
    strcpy(cwd, "/");
    strcpy(p, canon + 1);
  } else {
    if (canon[c] != '/') { /* not at a separator: take the directory above */
      while (c > 1 && cwd[c - 1] != '/')
        c--;
      if (c <= 1)
        mc_prune();
      cwd[--c] = 0;
    }
    if (c < 1)
      mc_prune();
    strcpy(p, canon + c + 1);
  }
  if (form) {
    memmove(p + 2, p, strlen(p) + 1);
    memcpy(p, "./", 2);
  }
  if (strlen(cwd) > 4000)
    mc_prune();
  if (n >= 4000)
    use(cwd, p, "/nowhere/at/all", "/c", 0);
  else
    use(cwd, p, canon, "/c", n <= 1000 ? 1 : 2);
  mc_state(mc_hash(form, &n, sizeof(n)) + c);
}
PART(c20_rel, "C20", "c20-relative", len_items, rel_run,
  "relative paths that make up the same lengths together with current directories of 15 lengths",
  {NULL}, FL_ASAN, 0);

/* The current directory is very long, or cannot be told. */
static long cwd_items(void) { return 200; }
static void
on_sys(const struct sc *sc, struct act *a) {
  if (sc->kind == SC_GETCWD)
    a->err = 2; /* ENOENT: removed */
}
static void
cwd_run(long item) {
  static char p[20000], c[20000];
  int n = 8100 + item, k = mc_choose(5);
  static const char *const ps[] = {".", "", "d", "../d", NULL};
  uint64_t h;
  setup();
  if (item == 0) {
    h = fs_tree_hash("/", NULL);
    env_hook = on_sys;
    if (urkel_open(ps[k]) || urkel_destroy(ps[k]))
      mc_fail("'%s' is found without a current directory", ps[k] ? ps[k] : "NULL");
    if (fs_tree_hash("/", NULL) != h)
      mc_fail("a refused path leaves something");
    R[0].db = urkel_open("/d");
    if (R[0].db == NULL)
      mc_fail("an absolute path needs the current directory");
    urkel_close(R[0].db);
    R[0].db = NULL;
    if (!urkel_destroy("/d"))
      mc_fail("destroying an absolute path needs the current directory");
    env_hook = NULL;
    check_clean("in the end");
    return;
  }
  memset(c, 'x', n);
  c[n] = 0;
  c[0] = '/';
  for (int i = 0; i < n - 1; i += 200)
    c[i] = '/';
  h = fs_tree_hash("/", NULL);
  fs_chdir(c);
  strcpy(p, ps[k] ? ps[k] : "");
  if (urkel_open(ps[k]) || urkel_destroy(ps[k]) || urkel__corrupt(ps[k]))
    mc_fail("'%s' in a directory of %d bytes is found", p, n);
  fs_chdir("/");
  if (fs_tree_hash("/", NULL) != h)
    mc_fail("a refused path leaves something");
  check_clean("in the end");
  mc_state(mc_hash(k, &n, sizeof(n)));
}
PART(c20_cwd, "C20", "c20-cwd", cwd_items, cwd_run,
  "current directories of every length from 8101 to 8299 bytes, and one that is gone",
  {NULL}, FL_ASAN, 0);

/* Spellings against each other: the same or not. */
static long same_items(void) { return 16 * 16; }
static void
same_run(long item) {
  static const char *const sp[] = {"d", "./d", "d/", "/a/d", "/a//d", "../a/d", "b/../d", "/a/b/../d/", "/d", "../d", "b/d", "/a/b/d", ".//d//.", "/../d", "../../d", "/a/./b/.././d"};
  char c1[300], c2[300];
  urkel_t *a, *b;
  setup();
  fs_chdir("/a");
  resolve("/a", sp[item % 16], c1, sizeof(c1));
  resolve("/a", sp[item / 16], c2, sizeof(c2));
  a = urkel_open(sp[item % 16]);
  if (a == NULL)
    mc_fail("open('%s') fails: %d", sp[item % 16], urkel_errno);
  env_set_proc(1);
  fs_chdir("/a");
  b = urkel_open(sp[item / 16]);
  mc_trans(2);
  if ((b == NULL) != (strcmp(c1, c2) == 0))
    mc_fail("'%s' and '%s' are %s database", sp[item % 16], sp[item / 16], b ? "not the same" : "the same");
  if (b)
    urkel_close(b);
  env_set_proc(0);
  urkel_close(a);
  check_clean("in the end");
  mc_state(item);
}
PART(c20_same, "C20", "c20-same", same_items, same_run,
  "every pair of 16 spellings opened by two processes: refused if and only if they name the same directory",
  {NULL}, FL_ASAN, 0);
PART(c27_c20_same, "C27", "c27-same", same_items, same_run,
  "in the Windows port: " "every pair of 16 spellings opened by two processes: refused if and only if they name the same directory", {NULL}, FL_WIN, 0);

/* One process that moves about: every path means the directory it is in at that call. */
struct dbm {
  char path[80];
  int n, keys[8];
  urkel_t *h;
};
static struct dbm dbs[16];
static int ndbs;

static struct dbm *
db_at(const char *canon) {
  int i;
  for (i = 0; i < ndbs; i++)
    if (strcmp(dbs[i].path, canon) == 0)
      return &dbs[i];
  if (ndbs == 16)
    mc_internal("databases");
  memset(&dbs[ndbs], 0, sizeof(dbs[0]));
  strcpy(dbs[ndbs].path, canon);
  return &dbs[ndbs++];
}

static void
mv_key(unsigned char *key, int i) {
  memset(key, 0, 32);
  key[0] = i << 5;
  key[31] = i;
}

static void
mv_check(struct dbm *d, int next) {
  unsigned char key[32], val[1024];
  size_t n;
  int i, j, have;
  for (i = 0; i <= next; i++) {
    mv_key(key, i);
    for (have = j = 0; j < d->n; j++)
      have |= d->keys[j] == i;
    n = 0;
    j = urkel_get(d->h, val, &n, key, NULL);
    if (j != have)
      mc_fail("the database in %s %s what was stored %s: error %d", d->path, have ? "lacks" : "has",
              have ? "there" : "in another directory", urkel_errno);
    if (have && (n != 32 || memcmp(val, key, 32)))
      mc_fail("the database in %s has another value", d->path);
  }
}

#define MV_SP 6
#define MV_N (4 * MV_SP * 2 + 1)
static long mv_items(void) { return MV_N; }
static void
mv_run(long item) {
  static const char *const sp[MV_SP] = {"d", "../d", "b/./d/", "/d", ".", NULL};
  char canon[300], up[300], names[32][256];
  unsigned char key[32];
  struct dbm *d;
  int t, k, i, steps = mc_thorough ? 4 : 3, cw, s, must, others;
  uint64_t h;
  setup();
  ndbs = 0;
  for (t = 0; t < steps; t++) {
    k = t == 0 ? item : mc_choose(MV_N);
    if (k == MV_N - 1) {
      for (i = 0; i < ndbs; i++) {
        if (dbs[i].h)
          urkel_close(dbs[i].h);
        dbs[i].h = NULL;
      }
      continue;
    }
    cw = k % 4;
    s = k / 4 % MV_SP;
#ifdef MC_WIN
    if (sp[s] == NULL) /* (nothing is promised about it there) */
      mc_prune();
#endif
    fs_chdir(cwds[cw]);
    resolve(cwds[cw], sp[s], canon, sizeof(canon));
    parent(canon, up);
    d = db_at(canon);
    mc_trace("%s '%s' in %s", k / (4 * MV_SP) ? "destroy" : "open", sp[s] ? sp[s] : "NULL", cwds[cw]);
    if (k / (4 * MV_SP) == 0) {
      if (d->h != NULL)
        mc_prune();
      must = fs_type(canon) == 'd' || (fs_type(canon) == 0 && fs_type(up) == 'd');
      h = fs_tree_hash("/", NULL);
      d->h = urkel_open(sp[s]);
      if ((d->h != NULL) != must)
        mc_fail("open('%s') in %s %s: error %d", sp[s] ? sp[s] : "NULL", cwds[cw], must ? "fails" : "succeeds", urkel_errno);
      if (d->h == NULL) {
        if (fs_tree_hash("/", NULL) != h)
          mc_fail("a refused path leaves something");
        continue;
      }
      mv_check(d, t);
      mv_key(key, t);
      if (!urkel_insert(d->h, key, key, 32))
        mc_fail("insert fails: error %d", urkel_errno);
      d->keys[d->n++] = t;
    } else {
      if (d->h != NULL)
        mc_prune();
      others = 0;
      if (fs_type(canon) == 'd') {
        i = fs_list(canon, names, 32);
        while (i-- > 0)
          if (strcmp(names[i], "meta") && strspn(names[i], "0123456789") != 10)
            others++;
      }
      if (others || fs_type(canon) != 'd' || strcmp(canon, "/") == 0) {
        if (others || strcmp(canon, "/") == 0)
          mc_prune();
        h = fs_tree_hash("/", NULL);
        if (urkel_destroy(sp[s]))
          mc_fail("destroy('%s') in %s succeeds", sp[s] ? sp[s] : "NULL", cwds[cw]);
        if (fs_tree_hash("/", NULL) != h)
          mc_fail("destroy('%s') in %s, where nothing is, changes something", sp[s] ? sp[s] : "NULL", cwds[cw]);
        continue;
      }
      if (!urkel_destroy(sp[s]))
        mc_fail("destroy('%s') in %s fails: error %d", sp[s] ? sp[s] : "NULL", cwds[cw], urkel_errno);
      if (fs_exists(canon))
        mc_fail("destroy('%s') in %s leaves %s", sp[s] ? sp[s] : "NULL", cwds[cw], canon);
      d->n = 0;
    }
    mc_trans(1);
    fs_chdir(cwds[(cw + 1 + t) % 4]);
    for (i = 0; i < ndbs; i++) {
      if (dbs[i].h)
        mv_check(&dbs[i], t);
      if (dbs[i].n && fs_type(dbs[i].path) != 'd')
        mc_fail("%s is gone", dbs[i].path);
    }
  }
  /* by their plain names, in the end, by another process */
  for (i = 0; i < ndbs; i++)
    if (dbs[i].h) {
      urkel_close(dbs[i].h);
      dbs[i].h = NULL;
    }
  env_set_proc(1);
  for (i = 0; i < ndbs; i++) {
    if (dbs[i].n == 0)
      continue;
    dbs[i].h = urkel_open(dbs[i].path);
    if (dbs[i].h == NULL)
      mc_fail("the database in %s cannot be opened: error %d", dbs[i].path, urkel_errno);
    mv_check(&dbs[i], steps);
    urkel_close(dbs[i].h);
    dbs[i].h = NULL;
  }
  env_set_proc(0);
  check_clean("in the end");
  mc_state(fs_tree_hash("/", NULL));
}
PART(c20_moves, "C20", "c20-moves", mv_items, mv_run,
  "every sequence of three (thorough four) opens and destroys of six spellings from four current directories by one process, databases staying open or being closed: each path means the directory the process is in at that call, and every database keeps exactly what was stored in it",
  {NULL}, FL_ASAN, 0);
PART(c27_c20_moves, "C27", "c27-moves", mv_items, mv_run,
  "in the Windows port: " "every sequence of three (thorough four) opens and destroys of six spellings from four current directories by one process, databases staying open or being closed: each path means the directory the process is in at that call, and every database keeps exactly what was stored in it", {NULL}, FL_WIN, 0);
