/* seq.h - exhaustive operation sequences against the model */
#ifndef SEQ_H
#define SEQ_H
#include "../ops.h"
struct seqcfg {
  int unis;                 /* universes 0 .. unis-1 */
  int nk, nv, ntx;
  int depth;                /* quick */
  int tdepth;               /* thorough */
  uint32_t mask;
  int what;                 /* observed after the last operation */
  int disk;                 /* read the files with the independent reader */
  void (*limits)(void);     /* set store limits */
  int start_tx;             /* begin with this many transactions open */
  int tunis;                /* thorough: universes (0: same) */
  int clean;                /* finally close and check for leaks */
  int setup;                /* begin with this many keys committed, one by one */
  int reopen;               /* reopen before the final observation */
  int still;                /* nothing but commits may change the files */
  int rnk;                  /* keys used by operations (0: nk) */
};
#define SEQ_FAN 96
long seq_items(const struct seqcfg *c);
void seq_run(const struct seqcfg *c, long item);
void db_start(struct model *m, const struct universe *u);
void db_end(struct model *m);
#endif
