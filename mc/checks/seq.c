#include "seq.h"

void
db_start(struct model *m, const struct universe *u) {
  struct op o;
  env_reset();
  memset(R, 0, sizeof(R));
  fs_mkdir("/w");
  model_init(m, u);
  memset(&o, 0, sizeof(o));
  o.kind = OP_OPEN;
  step(&R[0], m, &o);
}

void
db_end(struct model *m) {
  struct op o;
  memset(&o, 0, sizeof(o));
  o.kind = OP_CLOSE;
  step(&R[0], m, &o);
  check_clean("after closing the database");
}

static int
depth_of(const struct seqcfg *c) {
  return mc_thorough && c->tdepth ? c->tdepth : c->depth;
}

static int
unis_of(const struct seqcfg *c) {
  return mc_thorough && c->tunis ? c->tunis : c->unis;
}

long
seq_items(const struct seqcfg *c) {
  return (long)unis_of(c) * SEQ_FAN;
}

void
seq_run(const struct seqcfg *c, long item) {
  static struct universe u;
  static int made = -1;
  static const struct seqcfg *made_c;
  struct model m;
  struct op ops[512], o;
  char line[1100] = "", s[200];
  int ui = item / SEQ_FAN, first = item % SEQ_FAN;
  int depth = depth_of(c), i, n, want;
  uint64_t files = 0, now;

  if (made != ui || made_c != c) {
    ou_make(&u, ui, c->nk, c->nv);
    made = ui;
    made_c = c;
  }
  want = mc_want_sample();
  if (c->limits)
    c->limits();
  else
    env_limits_fast();
  db_start(&m, &u);
  memset(&o, 0, sizeof(o));
  for (i = 0; i < c->setup; i++) {
    o.kind = OP_INS;
    o.key = i;
    o.val = i % c->nv;
    step(&R[0], &m, &o);
  }
  o.key = o.val = 0;
  for (i = 0; i < c->start_tx; i++) {
    o.kind = OP_TXNEW;
    o.tx = i;
    o.hist = H_CUR;
    step(&R[0], &m, &o);
  }
  if (c->still)
    files = fs_tree_hash("/", "/w/db/lock");
  for (i = 0; i < depth; i++) {
    int pick;
    n = ops_enabled(&m, c->mask, c->ntx, c->rnk ? c->rnk : c->nk, c->nv, ops, 512);
    if (i == 0) {
      if (n > SEQ_FAN)
        mc_internal("more first operations (%d) than items", n);
      if (first > n || (first == n && n == SEQ_FAN))
        mc_prune();
      if (first == n)
        break; /* the empty sequence */
      pick = first;
    } else {
      pick = mc_choose(n + 1) - 1;
      if (pick < 0)
        break; /* observed here */
    }
    if (want) {
      op_str(&m, &ops[pick], s, sizeof(s));
      if (strlen(line) + strlen(s) + 3 < sizeof(line)) {
        strcat(line, s);
        strcat(line, "; ");
      }
    }
    step(&R[0], &m, &ops[pick]);
    if (c->still) {
      int k = ops[pick].kind;
      now = fs_tree_hash("/", "/w/db/lock");
      if (now != files && k != OP_TXCOMMIT && k != OP_INS && k != OP_REM) {
        op_str(&m, &ops[pick], s, sizeof(s));
        mc_fail("%s changes the stored files", s);
      }
      files = now;
    }
    mc_trans(1);
    mc_state(model_hash(&m) + ui);
  }
  if (c->reopen) {
    o.kind = OP_REOPEN;
    step(&R[0], &m, &o);
    if (c->still && fs_tree_hash("/", "/w/db/lock") != files)
      mc_fail("closing and opening changes the stored files");
  }
  observe(&R[0], &m, c->what);
  if (c->disk)
    observe_disk(&m, 0);
  if (c->clean)
    db_end(&m);
  if (want)
    mc_sample("universe %s: %s", ou_name(ui), line);
}
