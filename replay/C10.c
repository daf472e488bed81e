/* multi-dimensional arrays: every index tuple leads to its own element, in row-major order, inside the block */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "gutil.h"
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t); extern void __libc_free(void *); static long live_;
void *malloc(size_t n) { live_++; return __libc_malloc(n); } void free(void *p) { if (p) live_--; __libc_free(p); } void *realloc(void *p, size_t n) { if (!p) live_++; return __libc_realloc(p, n); }
static unsigned long long sd_ = 88172645463325252ULL; static unsigned R_(unsigned n) { sd_ ^= sd_ << 13; sd_ ^= sd_ >> 7; sd_ ^= sd_ << 17; return (unsigned) ((sd_ >> 20) % n); }
static char txt[200];
static int bad(const char *w, int r, size_t *d, int size) { int i; printf("%s: %s: %d dimensions", txt, w, r); for (i = 0; i < r; i++) printf(" %d", (int) d[i]); printf(", %d bytes\n", size); return 1; }
static size_t count(int r, size_t *d) { size_t n = 1; int i; for (i = 0; i < r; i++) n *= d[i]; return n; }
static size_t need(int r, size_t *d, size_t size) { size_t t = 0, s = 1; int i; for (i = 0; i < r - 1; i++) { s *= d[i]; t += s; } return t * sizeof(void *) + count(r, d) * size; }
static void *at(void *a, int r, size_t *ix, int size) { int i; char *p = a; for (i = 0; i < r - 1; i++) p = ((void **) p)[ix[i]]; return p + ix[r - 1] * size; }
static int next(int r, size_t *d, size_t *ix) { int i; for (i = r - 1; i >= 0; i--) { if (++ix[i] < d[i]) return 1; ix[i] = 0; } return 0; }
/* all elements: contiguous, in order, inside [lo, lo + len) */
static int layout(void *a, int r, size_t *d, int size, char *lo, size_t len, char *el) { size_t ix[8] = {0}, k = 0; char *first = NULL; if (!count(r, d)) return 0;
  do { char *p = at(a, r, ix, size); if (!first) { first = p; if (el && p != el) return bad("first element is not where the elements begin", r, d, size); }
    if (p != first + k * size) return bad("elements not contiguous or not in order", r, d, size); if (p < lo || p + size > lo + len) return bad("element outside the block", r, d, size); k++; } while (next(r, d, ix)); 
  return k == count(r, d) ? 0 : bad("number of elements", r, d, size); }
static char *dirty(size_t n) { char *p = malloc(n); size_t u = malloc_usable_size(p); size_t i; for (i = 0; i < u; i++) ((volatile char *) p)[i] = (char) 0xA5; free(p); return p; }
static int beyond(void *a, size_t n) { size_t u = malloc_usable_size(a), i; for (i = n < 16 ? 16 : n; i < u; i++) if (((unsigned char *) a)[i] != 0xA5) return 1; return 0; }
static int generic(void) { int r = 1 + R_(8), i, mx = r < 3 ? 9 : r < 6 ? 4 : 3, sizes[] = {1, 2, 4, 8, 16, 24}, size = sizes[R_(6)]; size_t d[8], ix[8] = {0}, L; char *a, *b, *q, *m, *e;
  for (i = 0; i < r; i++) d[i] = 1 + R_(mx); if (!R_(6)) d[R_(r)] = 0; L = need(r, d, size); strcpy(txt, "alloc_array");
  if (array_mem_length(r, d, size) != L) return bad("array_mem_length", r, d, size);
  q = dirty(L); a = alloc_array(r, d, size); if (!a) return bad("no array", r, d, size); if (malloc_usable_size(a) < L) return bad("block too small", r, d, size);
  if (a == q && L <= 1000 && beyond(a, L)) return bad("written beyond the block", r, d, size); if (layout(a, r, d, size, a, L, a + L - count(r, d) * size)) return 1;
  e = a + L - count(r, d) * size; for (i = 0; i < (int) (count(r, d) * size); i++) e[i] = R_(256);
  strcpy(txt, "dup_array"); b = dup_array(a, r, d, size); if (!b || b == a) return bad("no copy", r, d, size); if (layout(b, r, d, size, b, L, b + L - count(r, d) * size)) return 1;
  if (memcmp(b + L - count(r, d) * size, e, count(r, d) * size)) return bad("elements differ", r, d, size);
  strcpy(txt, "copy_array"); memset(b + L - count(r, d) * size, 0, count(r, d) * size); copy_array(b, a, r, d, size); if (layout(b, r, d, size, b, L, b + L - count(r, d) * size)) return 1;
  if (memcmp(b + L - count(r, d) * size, e, count(r, d) * size)) return bad("elements differ", r, d, size);
  if (layout(a, r, d, size, a, L, e)) return 1; free_array(b, r);
  strcpy(txt, "realloc_array"); d[R_(r)] = 1 + R_(mx); for (i = 0; i < r; i++) if (!d[i]) d[i] = 1; L = need(r, d, size); a = realloc_array(a, r, d, size); if (malloc_usable_size(a) < L) return bad("block too small", r, d, size); if (layout(a, r, d, size, a, L, NULL)) return 1; free_array(a, r);
  strcpy(txt, "array_from_mem"); { size_t n = count(r, d) * size, t = need(r, d, 0), Z = 64; int flag; m = malloc(L + 2 * Z);
    for (flag = 0; flag < 2; flag++) { int has = t > 0; memset(m, 0x5A, L + 2 * Z); q = dirty(t ? t : 1); a = array_from_mem(m + Z, r, d, size, flag); e = m + Z + (flag ? 0 : t);
      if (flag && has && malloc_usable_size(a) < t) return bad("table block too small", r, d, size); if (flag && has && t <= 1000 && a == q && beyond(a, t)) return bad("written beyond the tables", r, d, size); if (layout(a, r, d, size, m + Z, L, e)) return 1; 
      for (i = 0; i < (int) Z; i++) if (m[i] != 0x5A || m[Z + L + i] != 0x5A) return bad("written outside the memory", r, d, size); for (i = 0; i < (int) n; i++) if (e[i] != 0x5A) return bad("elements changed", r, d, size); if (flag && has) free_array(a, r); } free(m); } 
  return 0; }
#define EX1 d[0]
#define EX2 EX1, d[1]
#define EX3 EX2, d[2]
#define EX4 EX3, d[3]
#define EX5 EX4, d[4]
#define EX6 EX5, d[5]
#define EX7 EX6, d[6]
#define RANK(N, T, P) static int typed##N##P(void) { size_t d[8], L, ix[8], k, n; int i, size = sizeof(T); void *a, *b; T x, y; long m0; for (i = 0; i < N; i++) d[i] = 1 + R_(N < 4 ? 5 : 3); L = need(N, d, size); sprintf(txt, "arrays of %s", #T); \
  x = (T) (3 + R_(90)); y = (T) (100 + R_(20)); m0 = live_; a = alloc_array##N##_##P(EX##N); if (layout(a, N, d, size, a, L, (char *) a + L - count(N, d) * size)) return 1; n = count(N, d); \
  init_array##N##_##P(a, EX##N, x); memset(ix, 0, sizeof(ix)); do if (*(T *) at(a, N, ix, size) != x) return bad("element not initialised", N, d, size); while (next(N, d, ix)); \
  b = alloc_array##N##_##P(EX##N); init_array##N##_##P(b, EX##N, y); if (layout(a, N, d, size, a, L, NULL) || layout(b, N, d, size, b, L, NULL)) return 1; memset(ix, 0, sizeof(ix)); k = 0; do *(T *) at(a, N, ix, size) = (T) (k++ % 120); while (next(N, d, ix)); \
  copy_array##N##_##P(b, a, EX##N); if (layout(a, N, d, size, a, L, NULL) || layout(b, N, d, size, b, L, NULL)) return 1; memset(ix, 0, sizeof(ix)); k = 0; do { if (*(T *) at(b, N, ix, size) != (T) (k % 120)) return bad("element not copied", N, d, size); if (*(T *) at(a, N, ix, size) != (T) (k % 120)) return bad("source changed", N, d, size); k++; } while (next(N, d, ix)); \
  free_array##N##_##P(b); d[R_(N)] = 1 + R_(4); L = need(N, d, size); a = realloc_array##N##_##P(a, EX##N); if (layout(a, N, d, size, a, L, NULL) || malloc_usable_size(a) < L) return 1; free_array##N##_##P(a); \
  { T *m = malloc(count(N, d) * size); a = array_from_mem##N##_##P(m, EX##N); if (layout(a, N, d, size, (char *) m, count(N, d) * size, (char *) m)) return 1; if ((void *) a != m) free_array##N##_##P(a); free(m); } \
  if (live_ != m0) return bad("memory not given back", N, d, size); return 0; }
#define ALL(T, P) RANK(1, T, P) RANK(2, T, P) RANK(3, T, P) RANK(4, T, P) RANK(5, T, P) RANK(6, T, P) RANK(7, T, P) static int typed##P(void) { return typed1##P() || typed2##P() || typed3##P() || typed4##P() || typed5##P() || typed6##P() || typed7##P(); }
ALL(uchar, uc) ALL(char, c) ALL(ushort, us) ALL(short, s) ALL(uint, ui) ALL(int, i) ALL(ulong, ul) ALL(long, l) ALL(float, f) ALL(double, d) ALL(fcomplex, fc) ALL(dcomplex, dc)
#define FIXED(N) static int fixed##N(void) { size_t d[8], L; int i, size = 8; void *a; for (i = 0; i < N; i++) d[i] = 1 + R_(4); L = need(N, d, size); sprintf(txt, "alloc_array%d", N); if (array_mem_length##N(EX##N, size) != L) return bad("length", N, d, size); a = alloc_array##N(EX##N, size); if (layout(a, N, d, size, a, L, NULL)) return 1; \
  d[R_(N)] = 1 + R_(4); L = need(N, d, size); sprintf(txt, "realloc_array%d", N); a = realloc_array##N(a, EX##N, size); if (malloc_usable_size(a) < L || layout(a, N, d, size, a, L, NULL)) return 1; free_array##N(a); return 0; }
FIXED(1) FIXED(2) FIXED(3) FIXED(4) FIXED(5) FIXED(6) FIXED(7)
int main(void) { int t; for (t = 0; t < 20000; t++) if (generic()) return 1;
  for (t = 0; t < 300; t++) if (typeduc() || typedc() || typedus() || typeds() || typedui() || typedi() || typedul() || typedl() || typedf() || typedd() || typedfc() || typeddc() || fixed1() || fixed2() || fixed3() || fixed4() || fixed5() || fixed6() || fixed7()) return 1; return 0; }
