/* Sorting (misc/gutil_sort.c), bounded: every array of up to M distinct-identity records. Records are (key, tag): the result is ordered by key and is a permutation (every tag kept once). */
#include "gutil.h"
#ifndef M
#define M 4
#endif
#define W 4
typedef struct { signed char k, t; } rec;
int nondet_i(void); signed char nondet_c(void);
static rec a[M], o[M]; static int n, ix[M]; static rec *pp[M];
static int cmp(const void *x, const void *y) { return ((const rec *) x)->k - ((const rec *) y)->k; }
static void setup(void) { int i; n = nondet_i(); __CPROVER_assume(0 <= n && n <= M); for (i = 0; i < M; ++i) { a[i].k = nondet_c(); a[i].t = i; o[i] = a[i]; ix[i] = i; pp[i] = &a[i]; } }
static rec at(int how, int i) { return how == 0 ? a[i] : how == 1 ? a[ix[i]] : *pp[i]; }
static void post(int how) { int i, j; char seen[M];
     for (i = 0; i < M; ++i) seen[i] = 0;
     for (i = 0; i < n; ++i) { rec r = at(how, i); __CPROVER_assert(r.t >= 0 && r.t < n && ! seen[r.t] && r.k == o[r.t].k, "permutation of the input"); seen[r.t] = 1; if (i) __CPROVER_assert(at(how, i - 1).k <= r.k, "ordered"); }
     for (i = n; i < M; ++i) __CPROVER_assert(a[i].t == i && a[i].k == o[i].k && ix[i] == i && pp[i] == &a[i], "nothing beyond the array is touched");
     if (how) for (i = 0; i < M; ++i) __CPROVER_assert(a[i].t == i && a[i].k == o[i].k, "the records themselves stay in place"); }
void b_insertion_data(void) { setup(); int r = insertion_sort_data(a, n, sizeof(rec), cmp); __CPROVER_assert(r == 0, "success"); post(0); }
void b_insertion_index(void) { setup(); insertion_sort_index(a, ix, n, sizeof(rec), cmp); post(1); }
void b_insertion_pointer(void) { setup(); insertion_sort_pointer((void **) pp, n, sizeof(rec), cmp); post(2); }
void b_quick_data(void) { setup(); int r = quick_sort_data(a, n, sizeof(rec), cmp); __CPROVER_assert(r == 0, "success"); post(0); }
void b_quick_index(void) { setup(); quick_sort_index(a, ix, n, sizeof(rec), cmp); post(1); }
void b_quick_pointer(void) { setup(); quick_sort_pointer((void **) pp, n, sizeof(rec), cmp); post(2); }
/* the exchange steps: for every content */
void h_swap(void) { int x = nondet_i(), y = nondet_i(), x0 = x, y0 = y; swap_index(&x, &y); __CPROVER_assert(x == y0 && y == x0, "swap_index exchanges"); swap_index(&x, &x); __CPROVER_assert(x == y0, "swap with itself");
     uchar b1, b2, *p = &b1, *q = &b2; swap_pointer(&p, &q); __CPROVER_assert(p == &b2 && q == &b1, "swap_pointer exchanges"); }
