/* conc.h - programs of several threads over one database */
#ifndef CONC_H
#define CONC_H
#include "seq.h"
#define CMAXOPS 3
struct crec { struct op op; struct obs obs; long t0, t1; };
struct prog { struct op op[CMAXOPS]; int n; };
extern struct prog prog[MAXTHREADS];
extern struct crec crec[MAXTHREADS][CMAXOPS];
extern struct model conc_m;          /* as set up */
extern struct universe conc_u;
int conc_alphabet(const struct op **ops);
void conc_setup(int id);
#define CONC_SETUPS 3
void conc_run(int nthreads, int preemptions, int sys, int fn, int wpref);
/* Every result must fit one order of the calls, with what is left in memory
 * and on disk.  Leaves the database reopened, *fin its model. */
extern int conc_faults;          /* so many calls may have failed because of faults */
void conc_linearize(int nthreads, struct model *fin);
#endif
