/* ops.h - the operation alphabet, the abstract map model and the executor. */
#ifndef MC_OPS_H
#define MC_OPS_H

#include "mc.h"

#define OPK 16              /* keys of an operation universe */
#define OPH 24              /* distinct committed contents */
#define OPTX 3
#define OUTCAP 1023

typedef struct { int8_t c[OPK]; } oc;

struct model {
  const struct universe *u;
  int open;
  int there;                /* exists on disk */
  oc disk;                  /* contents of the last commit */
  oc cur;                   /* contents the database shows */
  int nhist;
  oc hist[OPH];             /* distinct non-empty committed contents */
  struct { int live; oc c; } tx[OPTX];
};

enum opk {
  OP_NONE,
  OP_TXNEW, OP_TXFREE, OP_TXINS, OP_TXREM, OP_TXGET, OP_TXHAS, OP_TXPROVE,
  OP_TXROOT, OP_TXITER, OP_TXCLEAR, OP_TXINJ, OP_TXCOMMIT,
  OP_INS, OP_REM, OP_GET, OP_HAS, OP_PROVE, OP_ITER, OP_ROOT, OP_INJ,
  OP_REOPEN, OP_OPEN, OP_CLOSE, OP_DESTROY, OP_N
};

#define H_CUR (-2)
#define H_UNKNOWN (-1)
#define H_ZERO 0            /* n >= 1: hist[n - 1] */

struct op { uint8_t kind, tx; int8_t key, val, hist; };

struct obs {
  int8_t ret;               /* 1, 0 */
  int8_t err;               /* error code when ret is 0 */
  int8_t val;               /* value index, -1 none, -2 something else */
  int8_t hasroot, hascont;
  uint8_t root[32];
  oc c;
};

/* Universes for the operation engine. */
int ou_count(void);
void ou_make(struct universe *u, int id, int nk, int nv);
void ou_small(struct universe *u, int id, int nk);
const char *ou_name(int id);

void model_init(struct model *m, const struct universe *u);
void model_step(struct model *m, const struct op *o, struct obs *e);
uint64_t model_hash(const struct model *m);
int model_known(const struct model *m, const oc *c);
int model_hist_add(struct model *m, const oc *c);

#define A(k) (1u << (k))
int ops_enabled(const struct model *m, uint32_t mask, int ntx, int nk, int nv,
                struct op *out, int max);
void op_str(const struct model *m, const struct op *o, char *buf, size_t n);
int obs_eq(const struct obs *a, const struct obs *b);
void obs_str(const struct obs *o, char *buf, size_t n);

/* The real side; one instance per simulated process. */
struct real { urkel_t *db; urkel_tx_t *tx[OPTX]; };
extern struct real R[4];
extern const char *db_path;

/* Runs the operation.  hm supplies what the history indices mean. */
void real_step(struct real *r, const struct model *hm, const struct op *o, struct obs *e);
void real_close(struct real *r);
void hist_root(const struct model *m, int hist, uint8_t *root);

/* Runs on both and compares. */
void step(struct real *r, struct model *m, const struct op *o);

#define OBS_DB 1
#define OBS_TX 2
#define OBS_HIST 4
#define OBS_PROOF 8
#define OBS_ITER 16
#define OBS_ALL 31
#define OBS_ROOTS 32        /* nothing but the roots */
void observe(struct real *r, const struct model *m, int what);
/* Reads the files with the independent reader; the newest commit must be
   m->disk and every m->hist must be among them. */
void observe_disk(const struct model *m, long maxfile);

int ref_recs(const struct universe *u, const int8_t *c, struct rec *r);
int proof_eval(const uint8_t *raw, size_t len, const uint8_t *key, uint8_t *root,
               int *exists, uint8_t *val, size_t *vlen);
void check_clean(const char *when);

#endif
