/* view.h - compares everything a view (database, old root, transaction) shows
 * with the contents it should have; for trees of any size. */
#ifndef VIEW_H
#define VIEW_H
#include "ops.h"

#define VW_ROOT 1
#define VW_GET 2
#define VW_HAS 4
#define VW_PROVE 8
#define VW_ITER 16
#define VW_BYTES 32         /* proofs byte for byte */
#define VW_MAP (VW_GET | VW_HAS)
#define VW_ALL 31

struct view { urkel_t *db; urkel_tx_t *tx; const uint8_t *root; };

void view_check(const struct view *v, const struct universe *u, const int8_t *c,
                int what, const char *when);
void view_absent(const struct view *v, const struct universe *u, const int8_t *c,
                 const uint8_t *key, int what, const char *when);
urkel_t *must_open(const char *path);
void must_insert(urkel_tx_t *tx, const struct universe *u, int k, int v);
#endif
