/* fault.h - exhaustive fault injection into operation sequences */
#ifndef FAULT_H
#define FAULT_H
#include "seq.h"
struct fltcfg {
  int unis, tunis;
  int nk, nv, ntx;
  int setup;                /* keys committed first */
  int warm;                 /* 0: reopened after the setup, 1: not */
  int start_tx;
  int depth, tdepth;
  int faults, tfaults;
  uint32_t mask;
  const int *sizes;         /* file size limits, 0-terminated; NULL: default */
  int maxopen;              /* open file limit (0: default) */
  int wbuf;                 /* write buffer (0: default) */
  int fds;                  /* instead of failing calls: so few descriptors */
  int sticky;               /* also failures lasting to the end of the call */
  int leaks;                /* finally nothing may be left */
  int nomap;                /* mappings fail throughout: data is read by pread */
};
long flt_items(const struct fltcfg *c);
void flt_run(const struct fltcfg *c, long item);

/* The injector alone: up to *budget failing calls. */
extern int flt_budget, flt_fired, flt_last_kind, flt_munmap, flt_nomap;
void flt_arm(int on, int sticky);
void flt_begin(void);       /* forgets lasting failures */
#endif
