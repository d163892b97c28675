/* fault.c - see fault.h */
#include <errno.h>
#include "fault.h"

int flt_budget, flt_fired, flt_last_kind, flt_munmap, flt_nomap;
static int flt_on, flt_sticky;
static int lasting;            /* 0 no, 1 every call, 2 writes past a point, 3 this kind */
static int lasting_kind;
static char flt_what[160];

static int
alts(enum sckind k, struct act *out) {
  int n = 0, i;
  for (i = 0; i < 4; i++) {
    out[i].err = 0;
    out[i].shortn = -1;
    out[i].crash = 0;
  }
  switch (k) {
    case SC_OPEN:
      out[n++].err = EIO;
      out[n++].err = EINTR;
      break;
    case SC_READ:
    case SC_PREAD:
      out[n++].err = EIO;
      out[n++].err = EINTR;
      out[n++].shortn = 1;
      out[n++].shortn = 0;
      break;
    case SC_WRITE:
    case SC_PWRITE:
      out[n++].err = ENOSPC;
      out[n++].err = EINTR;
      out[n++].shortn = 1;
      out[n++].shortn = 0;
      break;
    case SC_MMAP:
      out[n++].err = ENOMEM;
      break;
    case SC_LOCK:
      out[n++].err = ENOLCK;
      break;
    case SC_UNLOCK:
      break;
    case SC_RANDOM:
      out[n++].err = EIO;
      break;
    default:
      out[n++].err = EIO;
      break;
  }
  return n;
}

static void
hook(const struct sc *sc, struct act *a) {
  struct act alt[4];
  int n, c, extra = 0;
  if (flt_nomap && sc->kind == SC_MMAP) {
    a->err = ENOMEM;
    return;
  }
  if (!flt_on)
    return;
  if (lasting == 1 || (lasting == 3 && (int)sc->kind == lasting_kind)) {
    a->err = sc->kind == SC_WRITE || sc->kind == SC_PWRITE ? ENOSPC : EIO;
    return;
  }
  if (lasting == 2 && (sc->kind == SC_WRITE || sc->kind == SC_PWRITE)) {
    a->err = ENOSPC;
    return;
  }
  if (flt_budget == 0)
    return;
  n = alts(sc->kind, alt);
  if (n == 0)
    return;
  if (flt_sticky)
    extra = 2 + (sc->kind == SC_WRITE || sc->kind == SC_PWRITE);
  c = mc_choose(1 + n + extra);
  if (c == 0)
    return;
  flt_budget -= 1;
  flt_fired = 1;
  flt_last_kind = sc->kind;
  if (sc->kind == SC_MUNMAP)
    flt_munmap = 1;
  mc_count(0, 1);
  if (c <= n) {
    *a = alt[c - 1];
    snprintf(flt_what, sizeof(flt_what), "%s(%.100s) failing with %d/%zd", sc_names[sc->kind], sc->path, a->err, a->shortn);
    return;
  }
  c -= n + 1;
  if (c == 0) {
    lasting = 1;
    flt_munmap = 1;
    a->err = EIO;
  } else if (c == 1) {
    lasting = 3;
    lasting_kind = sc->kind;
    a->err = alt[0].err;
  } else {
    lasting = 2;
    a->shortn = sc->len / 2;
  }
  snprintf(flt_what, sizeof(flt_what), "%s(%.100s) and later calls failing (%d)", sc_names[sc->kind], sc->path, lasting);
}

void
flt_arm(int on, int sticky) {
  env_hook = hook;
  flt_on = on;
  flt_sticky = sticky;
}

void
flt_begin(void) {
  lasting = 0;
}

long
flt_items(const struct fltcfg *c) {
  int n = 1;
  if (c->sizes)
    for (n = 0; c->sizes[n]; n++)
      ;
  return (long)n * (mc_thorough && c->tunis ? c->tunis : c->unis) * SEQ_FAN;
}

/* One operation during which calls may fail.  Returns 1 when it failed. */
static int
fault_step(struct real *r, struct model *m, const struct op *o, const struct fltcfg *c) {
  struct obs want, got;
  struct model before = *m;
  char a[300], b[300], d[300];
  if (mc_verbose) {
    op_str(m, o, a, sizeof(a));
    mc_trace("  %s", a);
  }
  flt_fired = 0;
  flt_begin();
  if (c->fds) {
    struct envstat st;
    int n;
    env_stat(&st);
    n = flt_budget ? mc_choose(6) : 0;
    if (n) {
      flt_budget -= 1;
      flt_fired = 1;
      /* so many more, at reopening: so many at all */
      env_maxfds = o->kind == OP_REOPEN ? n - 1 : st.fds + n - 1;
      snprintf(flt_what, sizeof(flt_what), "%ld descriptors", env_maxfds);
      mc_count(0, 1);
    }
  } else {
    flt_arm(1, c->sticky);
  }
  real_step(r, &before, o, &got);
  flt_arm(0, 0);
  env_maxfds = 1 << 20;
  model_step(m, o, &want);
  if (obs_eq(&want, &got))
    return 0;
  op_str(&before, o, a, sizeof(a));
  obs_str(&want, b, sizeof(b));
  obs_str(&got, d, sizeof(d));
  if (!flt_fired)
    mc_fail("%s: expected %s, got %s", a, b, d);
  if (got.ret)
    mc_fail("%s with %s: expected %s, got %s", a, flt_what, b, d);
  if (want.ret && (got.err == URKEL_ENOTFOUND || got.err == URKEL_EITEREND || got.err == 0))
    mc_fail("%s with %s: expected %s or an error of the storage, got %s", a, flt_what, b, d);
  mc_count(1, 1);
  /* It did not happen. */
  *m = before;
  if (o->kind == OP_REOPEN || o->kind == OP_OPEN) {
    memset(m->tx, 0, sizeof(m->tx));
    m->open = 0;
    m->cur = m->disk;
  }
  return 1;
}

void
flt_run(const struct fltcfg *c, long item) {
  static struct universe u;
  static int made = -1, made_nk, made_nv, made_small;
  struct model m;
  struct op ops[512], o;
  int ui = item / SEQ_FAN % (mc_thorough && c->tunis ? c->tunis : c->unis);
  int si = item / SEQ_FAN / (mc_thorough && c->tunis ? c->tunis : c->unis);
  int first = item % SEQ_FAN, depth = mc_thorough && c->tdepth ? c->tdepth : c->depth;
  int i, n, pick, failed = 0, nfailed = 0, t;
  struct op fop;
  struct real *r = &R[0];

  if (made != ui || made_nk != c->nk || made_nv != c->nv || made_small != !!c->sizes) {
    if (c->sizes)
      ou_small(&u, ui, c->nk);
    else
      ou_make(&u, ui, c->nk, c->nv);
    made = ui;
    made_nk = c->nk;
    made_nv = c->nv;
    made_small = !!c->sizes;
  }
  env_limits_fast();
  if (c->sizes)
    urkel_verify_max_file_size = c->sizes[si];
  if (c->maxopen)
    urkel_verify_max_open_files = c->maxopen;
  if (c->wbuf)
    urkel_verify_write_buffer = c->wbuf;
  flt_arm(0, 0);
  flt_nomap = c->nomap;
  flt_budget = mc_thorough ? c->tfaults : c->faults;
  flt_fired = flt_munmap = 0;
  memset(&fop, 0, sizeof(fop));
  db_start(&m, &u);
  flt_arm(0, 0);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < c->setup; i++) {
    o.kind = OP_INS;
    o.key = i;
    o.val = i % c->nv;
    step(r, &m, &o);
  }
  o.key = o.val = 0;
  if (!c->warm) {
    o.kind = OP_REOPEN;
    step(r, &m, &o);
  }
  for (i = 0; i < c->start_tx; i++) {
    o.kind = OP_TXNEW;
    o.tx = i;
    o.hist = H_CUR;
    step(r, &m, &o);
  }
  o.tx = 0;
  for (i = 0; i < depth; i++) {
    n = ops_enabled(&m, c->mask, c->ntx, c->nk, c->nv, ops, 512);
    if (i == 0) {
      if (n > SEQ_FAN)
        mc_internal("more first operations (%d) than items", n);
      if (first >= n)
        mc_prune();
      pick = first;
    } else {
      pick = mc_choose(n + 1) - 1;
      if (pick < 0)
        break;
    }
    failed = fault_step(r, &m, &ops[pick], c);
    mc_trans(1);
    if (failed) {
      fop = ops[pick];
      nfailed++;
    }
    if (!m.open) {
      o.kind = OP_OPEN;
      step(r, &m, &o);
    }
  }
  mc_state(model_hash(&m) ^ env_fs_hash());
  observe(r, &m, OBS_DB | OBS_TX | OBS_HIST);
  if (nfailed) {
    switch (mc_choose(3)) {
      case 0: /* the same again */
        if (fop.kind == OP_REOPEN || (fop.kind > OP_TXNEW && fop.kind <= OP_TXCOMMIT && !m.tx[fop.tx].live))
          break;
        if (fop.kind == OP_TXNEW && m.tx[fop.tx].live)
          break;
        step(r, &m, &fop);
        observe(r, &m, OBS_DB | OBS_TX);
        break;
      case 1: /* nothing */
        break;
      default: /* close at once */
        flt_nomap = 0;
        o.kind = OP_REOPEN;
        step(r, &m, &o);
        observe(r, &m, OBS_DB | OBS_HIST);
        break;
    }
  }
  /* and on */
  for (t = 0; t < OPTX; t++) {
    if (m.tx[t].live) {
      o.kind = OP_TXCOMMIT;
      o.tx = t;
      step(r, &m, &o);
      break;
    }
  }
  flt_nomap = 0;
  memset(&o, 0, sizeof(o));
  o.kind = OP_INS;
  o.key = u.nk - 1;
  o.val = 1;
  step(r, &m, &o);
  observe(r, &m, OBS_DB);
  o.kind = OP_REOPEN;
  step(r, &m, &o);
  observe(r, &m, OBS_DB | OBS_HIST);
  observe_disk(&m, c->sizes ? (long)urkel_verify_max_file_size : 0);
  o.kind = OP_CLOSE;
  step(r, &m, &o);
  if (c->leaks && !flt_munmap)
    check_clean("after closing the database");
}
