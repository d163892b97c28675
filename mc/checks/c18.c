/* C18 - the hash function */
#include <sys/mman.h>
#include "../mc.h"

static void
cmp(const uint8_t *p, size_t n, const char *what) {
  uint8_t a[34], b[32];
  memset(a, 0x5c, sizeof(a));
  urkel_hash(a + 1, p, n);
  if (a[0] != 0x5c || a[33] != 0x5c)
    mc_fail("the hash of %zu bytes (%s) writes beyond its 32 bytes", n, what);
  ref_blake2b(b, 32, NULL, 0, p, n);
  mc_trans(1);
  if (memcmp(a + 1, b, 32) != 0)
    mc_fail("wrong hash of %zu bytes (%s)", n, what);
}

static const char *const pats[] = {"zero", "ones", "counting", "random", "alternating", "counting words"};
static void
fill(uint8_t *p, size_t n, int pat) {
  size_t i;
  uint64_t x = 88172645463325252ULL;
  for (i = 0; i < n; i++) {
    switch (pat) {
      case 0: p[i] = 0; break;
      case 1: p[i] = 0xff; break;
      case 2: p[i] = i; break;
      case 3:
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        p[i] = x >> 32;
        break;
      case 4: p[i] = i & 1 ? 0xaa : 0x55; break;
      default: p[i] = i / 8; break;
    }
  }
}

#define MAXLEN 2200
#define TMAXLEN 9000
static long len_items(void) { return mc_thorough ? TMAXLEN : MAXLEN; }
static void
len_run(long item) {
  int al = mc_choose(64), pat;
  uint8_t *big, *p;
  for (pat = 0; pat < (int)ARRAY_SIZE(pats); pat++) {
    /* at the very end of its memory, so that reading on is seen */
    if (posix_memalign((void **)&big, 64, al + item ? al + item : 1) != 0)
      mc_internal("memory");
    p = big + al;
    fill(p, item, pat);
    cmp(p, item, pats[pat]);
    free(big);
  }
  mc_state(mc_hash(al, &item, sizeof(item)));
  if (mc_want_sample())
    mc_sample("%ld bytes at alignment %d", item, al);
}
PART(c18_len, "C18", "c18-len", len_items, len_run,
  "every length from 0 to 2199 (thorough 8999) at 64 alignments with six patterns",
  {NULL}, FL_ASAN | FL_MSAN, 0);

/* Every byte and every bit matters, in the right place. */
static long bit_items(void) { return mc_thorough ? 2200 : 1100; }
static void
bit_run(long item) {
  uint8_t *p = malloc(item ? item : 1);
  int pos = item ? mc_choose(item) : 0, b, base;
  for (base = 0; base < 2; base++) {
    for (b = 0; b < (item ? 8 : 1); b++) {
      memset(p, base ? 0xff : 0, item);
      if (item)
        p[pos] ^= 1 << b;
      cmp(p, item, "one bit");
    }
  }
  free(p);
  mc_state(mc_hash(pos, &item, sizeof(item)));
}
PART(c18_bit, "C18", "c18-bit", bit_items, bit_run,
  "every length from 0 to 1099 (thorough 2199) with every single bit set and every single bit clear",
  {NULL}, FL_ASAN, 0);

static long short_items(void) { return 257; }
static void
short_run(long item) {
  uint8_t p[3];
  int i;
  if (item == 256) {
    cmp(p, 0, "empty");
    cmp(NULL, 0, "empty, without memory");
    for (i = 0; i < 256; i++) {
      p[0] = i;
      cmp(p, 1, "one byte");
    }
    return;
  }
  p[0] = item;
  for (i = 0; i < 256; i++) {
    p[1] = i;
    cmp(p, 2, "two bytes");
    if (mc_thorough) {
      int k;
      for (k = 0; k < 256; k++) {
        p[2] = k;
        cmp(p, 3, "three bytes");
      }
    }
  }
  mc_state(item);
}
PART(c18_short, "C18", "c18-short", short_items, short_run,
  "every input of up to two (thorough three) bytes", {NULL}, FL_ASAN, 0);

/* Long ones, around the powers of two. */
static long long_items(void) { return 12 * 5; }
static void
long_run(long item) {
  size_t n = ((size_t)4096 << (item / 5)) + (item % 5 - 2) * 1;
  uint8_t *p;
  int pat;
  if (item % 5 == 0)
    n -= 126;
  if (item % 5 == 4)
    n += 126;
  p = malloc(n);
  for (pat = 2; pat < 4; pat++) {
    fill(p, n, pat);
    cmp(p, n, pats[pat]);
    mc_slow();
  }
  free(p);
  mc_state(item);
}
PART(c18_long, "C18", "c18-long", long_items, long_run,
  "lengths around every power of two from 4 KiB to 8 MiB", {NULL}, FL_PLAIN, 0);

/* The 32-bit limit of the byte counter. */
static long huge_items(void) { return 3; }
static void
huge_run(long item) {
  size_t n = ((size_t)1 << 32) + (item - 1) * 128 + (item == 2);
  uint8_t *p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    mc_internal("mmap");
  cmp(p, n, "zeros");
  munmap(p, n);
  mc_state(item);
}
PART(c18_huge, "C18", "c18-huge", huge_items, huge_run,
  "three lengths around 4 GiB (zeros)", {NULL}, FL_PLAIN, 600);
