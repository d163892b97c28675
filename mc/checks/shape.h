/* shape.h - trees over all bit positions, all contents, deep chains */
#ifndef SHAPE_H
#define SHAPE_H
#include "../view.h"
long bits_items(void);
void bits_run(long item, int what);
long chain_items(void);
void chain_run(long item, int what);
struct allcfg { int nk, tnk; int unis, tunis; };
long all_items(const struct allcfg *c);
void all_run(const struct allcfg *c, long item, int what);
#endif
