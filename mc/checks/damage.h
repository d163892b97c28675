/* damage.h - damaged files: images, an oracle that trusts nothing it cannot
 * verify by hashes, and the calls made on a damaged database. */
#ifndef DAMAGE_H
#define DAMAGE_H
#include "seq.h"

#define DF_MAX 12            /* data files */
#define DC_MAX 12            /* commits */

struct dimg {
  struct universe u;
  struct fs_image *im;
  size_t limit;              /* file size limit it was written with */
  int nf;
  uint8_t *data[DF_MAX + 2]; /* [0] is the key file, [1..nf] data */
  long size[DF_MAX + 2];
  int nc;                    /* commits, oldest first */
  struct { int8_t c[OPK]; uint8_t root[32]; struct ptr rec, at; } com[DC_MAX];
  int nptr;                  /* where the pointers are */
  struct { int file; long off; int kind; } pf[400]; /* 0 child 1 value 2 meta 3 root */
};

int dimg_count(void);
const struct dimg *dimg_get(int i); /* builds it when first needed */
const char *dimg_name(int i);
void dimg_path(char *buf, size_t n, int file);
/* Restores the image; then damage the files. */
void dimg_load(const struct dimg *d);
/* Opens the database and makes every call.  order: 0 newest roots first. */
void dmg_run(const struct dimg *d, int order, const char *what);
extern int dmg_leaks; /* finally nothing may be left */
/* Recomputes the checksum of the commit record at that place. */
void dmg_reseal(const struct dimg *d, int file, long off);
long dmg_byte_items(void);
void dmg_byte_run(long item);
long dmg_ptr_items(void);
void dmg_ptr_run(long item);
long dmg_cut_items(void);
void dmg_cut_run(long item);
long dmg_file_items(void);
void dmg_file_run(long item);
#endif
