/* wr.h - writes databases in the published format, independently of the
 * library, in any of several layouts. */
#ifndef WR_H
#define WR_H
#include "mc.h"

struct wlay {
  int order;               /* 0 as the library does, 1 reversed, 2 values first,
                              3 nodes first */
  int reuse;               /* unchanged nodes are not written again */
  int share;               /* equal values are written once per commit */
  int gap;                 /* bytes between items */
  int fill;                /* what gaps hold */
  long limit;              /* file size limit */
  int early;               /* new file for every commit */
};

#define WMEMO 4000
struct wr {
  char dir[200];
  struct wlay lay;
  uint8_t key[32];
  int file;
  long len, base;
  uint8_t *buf;            /* of the current file */
  struct ptr last;         /* newest commit record */
  int nmemo;
  struct { uint8_t hash[32]; struct ptr p; } memo[WMEMO];
};

void wr_begin(struct wr *w, const char *dir, const struct wlay *lay, const uint8_t *key);
/* Continues an existing database. */
void wr_resume(struct wr *w, const char *dir, const struct wlay *lay);
void wr_commit(struct wr *w, const struct rec *r, int n);
/* Bytes of an interrupted commit at the end. */
void wr_tail(struct wr *w, int n, int fill);
/* Leaves a hole up to that place; empty files up to that number. */
void wr_skip(struct wr *w, long pos);
void wr_skip_file(struct wr *w, int index);
void wr_end(struct wr *w);
#endif
