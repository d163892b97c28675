/* C15 - several processes */
#include <errno.h>
#include "conc.h"

/* What a process does. */
enum { P_OPEN = 1, P_CLOSE, P_DESTROY, P_INS, P_REM, P_LOOK, P_DIE };
static const int scripts[][8] = {
  {P_OPEN, P_INS, P_CLOSE},
  {P_DESTROY},
  {P_OPEN, P_LOOK, P_CLOSE, P_OPEN, P_INS, P_CLOSE},
  {P_DESTROY, P_OPEN, P_INS, P_CLOSE},
  {P_OPEN, P_CLOSE, P_DESTROY},
  {P_OPEN, P_INS, P_DIE},
  {P_OPEN, P_REM, P_INS, P_CLOSE},
  {P_DESTROY, P_DESTROY},
};
#define NSCRIPT ((int)ARRAY_SIZE(scripts))
#define NPAIR 8

struct ev { int what, ok, err, done, contok, flt; oc cont; long t0, t1; int key, val; };
static struct ev ev[3][8];
static int nev[3], np;
static const int *script[3];
static struct universe u;
static int killer, kill_budget;
static int held;               /* inode-independent: who has it open */
static int holds[3];
static int keep_names; /* in the Windows port: see win_pending */

static void
on_sys(const struct sc *sc, struct act *a) {
  int t = sched_tid();
  if (t < 0 || t != killer || kill_budget == 0 || !sc->mutating)
    return;
  if (mc_choose(2)) {
    kill_budget = 0;
    a->crash = 1;
  }
}

/* or a system call of its fails */
static void
on_flt(const struct sc *sc, struct act *a) {
  int t = sched_tid();
  if (t != 0 || kill_budget == 0 || nev[t] == 0 || sc->kind == SC_CLOSE || sc->kind == SC_CLOSEDIR || sc->kind == SC_MUNMAP || sc->kind == SC_UNLOCK)
    return;
  if (mc_choose(2)) {
    mc_trace("  %s(%s) fails", sc_names[sc->kind], sc->path);
    kill_budget = 0;
    ev[t][nev[t] - 1].flt = 1;
    mc_count(0, 1);
    a->err = sc->kind == SC_LOCK ? ENOLCK : sc->kind == SC_WRITE || sc->kind == SC_PWRITE ? ENOSPC : EIO;
  }
}

static void
on_crash(void) {
  int t = sched_tid();
  mc_trace("  process %d dies", t);
  if (holds[t]) {
    holds[t] = 0;
    held--;
  }
  env_proc_exit(t);
  memset(&R[t], 0, sizeof(R[t]));
  ev[t][nev[t] - 1].t1 = sched_clock();
  sched_exit_thread();
}

static void
body(int t) {
  struct model m;
  struct op o;
  struct obs e;
  int i;
  env_set_proc(t);
  model_init(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; script[t][i]; i++) {
    struct ev *v;
    int what = script[t][i];
    if (what != P_OPEN && what != P_DESTROY && what != P_DIE && R[t].db == NULL)
      continue; /* could not be opened */
    sched_point("call");
    v = &ev[t][nev[t]++];
    memset(v, 0, sizeof(*v));
    v->what = what;
    v->t0 = sched_clock();
    v->t1 = 1L << 40;
    urkel_errno = 0;
    switch (what) {
      case P_OPEN:
        R[t].db = urkel_open(db_path);
        v->ok = R[t].db != NULL;
        if (v->ok) {
          if (held)
            mc_fail("process %d opens the database while another has it open", t);
          held++;
          holds[t] = 1;
        }
        break;
      case P_CLOSE:
        held--;
        holds[t] = 0;
        urkel_close(R[t].db);
        R[t].db = NULL;
        v->ok = 1;
        break;
      case P_DESTROY: {
        int before = held;
        v->ok = urkel_destroy(db_path);
        (void)before;
        break;
      }
      case P_INS:
      case P_REM:
        o.kind = what == P_INS ? OP_INS : OP_REM;
        o.key = v->key = what == P_INS ? t : 3;
        o.val = v->val = i & 1;
        real_step(&R[t], &m, &o, &e);
        v->ok = e.ret;
        v->err = e.err;
        v->done = 1;
        break;
      case P_LOOK:
        o.kind = OP_ITER;
        o.hist = H_CUR;
        real_step(&R[t], &m, &o, &e);
        v->ok = e.ret;
        v->cont = e.c;
        v->contok = 1;
        break;
      case P_DIE:
        v->done = 1;
        v->t1 = sched_clock();
        on_crash();
    }
    if (!v->ok && !v->err)
      v->err = urkel_errno;
    v->done = 1;
    v->t1 = sched_clock();
    mc_trace("  process %d: %s -> %s %d", t,
             what == P_OPEN ? "open" : what == P_CLOSE ? "close" : what == P_DESTROY ? "destroy" : what == P_INS ? "insert" : what == P_REM ? "remove" : "iterate",
             v->ok ? "ok" : "fail", v->err);
  }
}

/* exists: 0 no, 1 yes, 2 half destroyed (by a destroy that reported a failure):
 * it may not open, but can be destroyed. */
struct st { int exists, holder, n; oc c; };

static int
overlaps(const struct ev *a, int t, int what_open, int what_sess) {
  int p, i, j;
  for (p = 0; p < np; p++) {
    if (p == t)
      continue;
    for (i = 0; i < nev[p]; i++) {
      const struct ev *b = &ev[p][i];
      long end = b->t1;
      if (b->what != P_OPEN && b->what != P_DESTROY)
        continue;
      if (what_open && b->t0 < a->t1 && b->t1 > a->t0)
        return 1;
      if (what_sess && b->what == P_OPEN && b->ok) {
        for (j = i + 1; j < nev[p]; j++)
          if (ev[p][j].what == P_CLOSE || !ev[p][j].done || ev[p][j].what == P_DIE)
            break;
        end = j < nev[p] ? ev[p][j].t1 : 1L << 40;
        if (b->t0 < a->t1 && end > a->t0)
          return 1;
      }
    }
  }
  return 0;
}

static oc fin;
static int fin_broken;
static int
lin(int *pos, const struct st *s) {
  int t, w, i, left = 0;
  for (t = 0; t < np; t++)
    left += nev[t] - pos[t];
  if (left == 0)
    return s->exists == 2 ? fin_broken : !fin_broken && memcmp(&s->c, &fin, sizeof(fin)) == 0;
  for (t = 0; t < np; t++) {
    const struct ev *v;
    struct st a[3];
    int na = 0, ok = 1;
    if (pos[t] == nev[t])
      continue;
    v = &ev[t][pos[t]];
    for (w = 0; w < np && ok; w++)
      for (i = pos[w]; i < nev[w] && ok; i++)
        if (w != t && ev[w][i].t1 < v->t0)
          ok = 0;
    if (!ok)
      continue;
    a[0] = a[1] = a[2] = *s;
    switch (v->what) {
      case P_OPEN:
        if (v->ok) {
          if (s->holder >= 0 || s->exists == 2)
            break;
          a[0].holder = t;
          a[0].exists = 1;
          na = 1;
        } else if (!v->done) {
          na = 1; /* died: nothing, or an empty database */
        } else if (v->flt || s->exists == 2 || overlaps(v, t, 1, 1)) {
          na = 1;
        }
        break;
      case P_CLOSE:
      case P_DIE:
        if (s->holder == t)
          a[0].holder = -1;
        na = 1;
        break;
      case P_DESTROY:
        memset(&a[1].c, -1, sizeof(oc));
        a[1].exists = 0;
        if (v->ok) {
          if (s->holder >= 0)
            break;
          a[0] = a[1];
          na = 1;
        } else if (!v->done) {
          na = s->holder >= 0 ? 1 : 2; /* died: removed or not */
        } else if (v->flt) {
          a[2] = a[1];
          a[2].exists = 2;
          na = s->holder >= 0 ? 1 : 3;
        } else if (!s->exists || s->holder >= 0 || overlaps(v, t, 1, 1)) {
          /* Refused; a destroy that an open or destroy interferes with may
           * have removed the data before it found the directory in use. */
          na = s->holder < 0 && overlaps(v, t, 1, 0) ? 2 : 1;
        }
        break;
      case P_INS:
      case P_REM:
        if (s->holder != t)
          break;
        a[1].c.c[v->key] = v->what == P_INS ? v->val : -1;
        if (v->done) {
          if (v->ok)
            a[0] = a[1];
          else if (v->flt)
            ;
          else if (v->what == P_INS || s->c.c[v->key] >= 0)
            break;
          na = 1;
        } else {
          na = 2;
        }
        if (!v->done)
          a[0].holder = a[1].holder = -1;
        break;
      case P_LOOK:
        if (s->holder == t && v->flt && !v->ok)
          na = 1;
        if (s->holder == t && v->ok && memcmp(&v->cont, &s->c, sizeof(oc)) == 0)
          na = 1;
        break;
    }
    pos[t]++;
    for (i = 0; i < na; i++) {
      if (!v->done && a[i].holder == t)
        a[i].holder = -1;
      if (lin(pos, &a[i]))
        return 1;
    }
    pos[t]--;
  }
  return 0;
}

static void
go(int n, int pre, int start, int kill) {
  struct sched_cfg c;
  struct model m;
  struct op o;
  struct obs e;
  struct st s;
  int pos[3] = {0}, i;
  ou_small(&u, 0, 5);
  env_limits_fast();
  env_reset();
  win_pending = keep_names;
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(&m, &u);
  memset(&o, 0, sizeof(o));
  if (start == 1) {
    o.kind = OP_OPEN;
    step(&R[0], &m, &o);
    o.kind = OP_INS;
    o.key = 3;
    step(&R[0], &m, &o);
    o.kind = OP_CLOSE;
    step(&R[0], &m, &o);
  }
  s.exists = start == 1;
  s.holder = -1;
  s.c = m.disk;
  memset(ev, 0, sizeof(ev));
  memset(nev, 0, sizeof(nev));
  memset(holds, 0, sizeof(holds));
  held = 0;
  np = n;
  killer = kill - 1;
  kill_budget = kill != 0;
  env_hook = kill > 0 ? on_sys : kill < 0 ? on_flt : NULL;
  env_crash = on_crash;
  memset(&c, 0, sizeof(c));
  c.nthreads = n;
  c.preemptions = pre;
  c.yield_on_sys = 1;
  c.procs = 1;
  env_yield = sched_point;
  sched_run(&c, body);
  env_yield = NULL;
  env_hook = NULL;
  for (i = 0; i < n; i++) {
    env_proc_exit(i);
    mc_trans(nev[i]);
  }
  memset(R, 0, sizeof(R));
  /* what is left */
  env_set_proc(0);
  R[0].db = urkel_open(db_path);
  fin_broken = 0;
  if (R[0].db == NULL) {
    /* only a destroy that failed half way may leave that */
    for (i = 0; i < nev[0]; i++)
      fin_broken |= ev[0][i].what == P_DESTROY && ev[0][i].flt && !ev[0][i].ok;
    if (!fin_broken)
      mc_fail("after all processes are gone the database does not open: error %d", urkel_errno);
    if (!urkel_destroy(db_path) || fs_exists(db_path))
      mc_fail("a half destroyed database cannot be destroyed: error %d", urkel_errno);
    memset(&fin, -1, sizeof(fin));
  } else {
    o.kind = OP_ITER;
    o.hist = H_CUR;
    real_step(&R[0], &m, &o, &e);
    if (!e.ret)
      mc_fail("after all processes are gone the database cannot be read: error %d", e.err);
    fin = e.c;
  }
  if (!lin(pos, &s)) {
    char msg[600] = "";
    size_t k = 0;
    int t;
    for (t = 0; t < n; t++)
      for (i = 0; i < nev[t]; i++)
        if (k + 20 < sizeof(msg))
          k += snprintf(msg + k, sizeof(msg) - k, " p%d.%d:%s", t, ev[t][i].what, !ev[t][i].done ? "died" : ev[t][i].ok ? "ok" : "fail");
    mc_fail("no order of the processes' calls explains their results and what is left:%s", msg);
  }
  mc_state(mc_hash(start, &fin, sizeof(fin)) ^ mc_hash(5, script, sizeof(script)) ^ ev[0][0].ok * 3 ^ ev[1][0].ok * 7);
  if (R[0].db)
    real_close(&R[0]);
}

static long pair_items(void) { return NSCRIPT * NSCRIPT * 2; }
static void
pair_run(long item) {
  int x = item / 2 % NSCRIPT, y = item / 2 / NSCRIPT;
  script[0] = scripts[x];
  script[1] = scripts[y];
  if (y < x)
    mc_prune();
  go(2, mc_thorough ? 5 : 3, item % 2, 0);
}
PART(c15_pair, "C15", "c15-pair", pair_items, pair_run,
  "every pair of 8 programs of opening, writing, closing, destroying and dying processes, on an existing and a missing database: every schedule of system calls with up to 3 (thorough 5) preemptions",
  {NULL}, FL_ASAN, 0);

static long kill_items(void) { return NSCRIPT * NSCRIPT * 2; }
static void
kill_run(long item) {
  int x = item / 2 % NSCRIPT, y = item / 2 / NSCRIPT;
  script[0] = scripts[x];
  script[1] = scripts[y];
  go(2, mc_thorough ? 3 : 2, item % 2, 1);
}
PART(c15_kill, "C15", "c15-kill", kill_items, kill_run,
  "the same, with the first process killed before any modifying system call: every schedule with up to 2 (thorough 3) preemptions",
  {NULL}, FL_ASAN, 0);

static void
flt15_run(long item) {
  int x = item / 2 % NSCRIPT, y = item / 2 / NSCRIPT;
  script[0] = scripts[x];
  script[1] = scripts[y];
  go(2, mc_thorough ? 3 : 1, item % 2, -1);
}
PART(c15_fault, "C15", "c15-fault", kill_items, flt15_run,
  "the same, with any one system call of the first process failing: every schedule with up to 1 (thorough 3) preemptions",
  {"faults"}, FL_ASAN, 0);

static long three_items(void) { return 5 * 5 * 5 * 2; }
static void
three_run(long item) {
  int x = item / 2 % 5, y = item / 10 % 5, z = item / 50;
  if (y < x || z < y)
    mc_prune();
  script[0] = scripts[x];
  script[1] = scripts[y];
  script[2] = scripts[z];
  go(3, mc_thorough ? 3 : 1, item % 2, 0);
}
PART(c15_three, "C15", "c15-three", three_items, three_run,
  "every three of 5 programs: every schedule of system calls with up to 1 (thorough 3) preemptions",
  {NULL}, FL_ASAN, 0);

/* Held open: the other is refused and changes nothing. */
static long refuse_items(void) { return 4 * 3; }
static void
refuse_run(long item) {
  struct model m;
  struct op o;
  struct real *r = &R[0];
  uint64_t h;
  int i, k = item % 4;
  ou_small(&u, 0, 5);
  env_limits_fast();
  if (item / 4 == 1)
    urkel_verify_max_file_size = 120;
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < (item / 4 == 2 ? 0 : 3); i++) {
    o.kind = OP_INS;
    o.key = i;
    step(r, &m, &o);
  }
  h = fs_tree_hash("/", NULL);
  env_set_proc(1);
  for (i = 0; i < 2; i++) {
    urkel_errno = 0;
    if (k & 1 ? urkel_destroy(db_path) : urkel_open(db_path) != NULL)
      mc_fail("%s succeeds while another process has the database open", k & 1 ? "destroy" : "open");
    if (urkel_errno == 0)
      mc_fail("a refused call reports no error");
    if (fs_tree_hash("/", NULL) != h)
      mc_fail("a refused %s changes the files", k & 1 ? "destroy" : "open");
    mc_trans(1);
  }
  env_set_proc(0);
  o.kind = OP_INS;
  o.key = 3;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  if (k & 2) {
    env_proc_exit(0); /* dies */
    memset(R, 0, sizeof(R));
    model_init(&m, &u);
  } else {
    o.kind = OP_CLOSE;
    step(r, &m, &o);
  }
  env_set_proc(1);
  if (k & 1) {
    if (!urkel_destroy(db_path))
      mc_fail("destroy is refused although nobody has the database open any more: error %d", urkel_errno);
    if (fs_exists(db_path))
      mc_fail("destroyed, but there");
  } else {
    R[1].db = urkel_open(db_path);
    if (R[1].db == NULL)
      mc_fail("open is refused although nobody has the database open any more: error %d", urkel_errno);
    if (!(k & 2))
      observe(&R[1], &m, OBS_DB | OBS_HIST);
    real_close(&R[1]);
  }
  mc_state(item);
  check_clean("afterwards");
}
PART(c15_refuse, "C15", "c15-refuse", refuse_items, refuse_run,
  "open and destroy while another process has the database open, changing nothing, and after it has closed it or died",
  {NULL}, FL_ASAN, 0);

/* In the Windows port. */
static void
win_pair_run(long item) {
  int x = item / 2 % NSCRIPT, y = item / 2 / NSCRIPT;
  script[0] = scripts[x];
  script[1] = scripts[y];
  if (y < x)
    mc_prune();
  keep_names = mc_choose(2);
  go(2, mc_thorough ? 4 : 2, item % 2, 0);
}
PART(c27_procs, "C27", "c27-procs", pair_items, win_pair_run,
  "every pair of 8 programs of opening, writing, closing, destroying and dying processes, on an existing and a missing database: every schedule of system calls with up to 2 (thorough 4) preemptions, where removed files lose their names at once and where they keep them until they are closed",
  {NULL}, FL_WIN, 0);

static void
win_kill_run(long item) {
  int x = item / 2 % NSCRIPT, y = item / 2 / NSCRIPT;
  script[0] = scripts[x];
  script[1] = scripts[y];
  keep_names = mc_choose(2);
  go(2, mc_thorough ? 3 : 1, item % 2, 1);
}
PART(c27_kill, "C27", "c27-kill", kill_items, win_kill_run,
  "the same, with the first process killed before any modifying system call: every schedule with up to 1 (thorough 3) preemptions",
  {NULL}, FL_WIN, 0);
