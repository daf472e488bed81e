/* containers and ordering on the real code: list histories against an array, every short array and random longer ones through the sorts, comparison functions */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <gutil.h>
#include <gstruct.h>
static char where[200];
static void sig(int s) { char b[300]; snprintf(b, 300, "%s: signal %d (crash or no termination)\n", where, s); write(1, b, strlen(b)); _exit(3); }
#define FAIL(...) do { printf("%s: ", where); printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
typedef struct { short k, t; } rec;
static int cr(const void *a, const void *b) { return ((const rec *) a)->k - ((const rec *) b)->k; }
static int ci(const void *a, const void *b) { return *(const int *) a < *(const int *) b ? -1 : *(const int *) a > *(const int *) b; }
static void sorts(const short *k, int n) { static rec a[310], *p[310]; static int ix[310]; static char seen[310]; int how, i;
  for (how = 0; how < 6; how++) { const char *nm[] = {"insertion_sort_data", "quick_sort_data", "insertion_sort_index", "quick_sort_index", "insertion_sort_pointer", "quick_sort_pointer"};
    snprintf(where, 200, "%s, n = %d", nm[how], n);
    for (i = 0; i < n + 2; i++) { a[i].k = i < n ? k[i] : -99; a[i].t = i; ix[i] = i; p[i] = a + i; seen[i] = 0; }
    if (how == 0) insertion_sort_data(a, n, sizeof(rec), cr); if (how == 1) quick_sort_data(a, n, sizeof(rec), cr); if (how == 2) insertion_sort_index(a, ix, n, sizeof(rec), cr); if (how == 3) quick_sort_index(a, ix, n, sizeof(rec), cr);
    if (how == 4) insertion_sort_pointer((void **) p, n, sizeof(rec), cr); if (how == 5) quick_sort_pointer((void **) p, n, sizeof(rec), cr);
    for (i = 0; i < n; i++) { int j = how < 2 ? i : how < 4 ? ix[i] : (int) (p[i] - a), j0 = i ? how < 2 ? i - 1 : how < 4 ? ix[i - 1] : (int) (p[i - 1] - a) : j; if (j < 0 || j >= n) FAIL("entry %d is not one of the input", i);
      if (a[j].t < 0 || a[j].t >= n || seen[a[j].t]++ || a[j].k != k[a[j].t]) FAIL("not a permutation of its input at %d", i); if (i && a[j0].k > a[j].k) FAIL("not in order at %d (%d after %d)", i, a[j].k, a[j0].k); }
    for (i = n; i < n + 2; i++) if (a[i].t != i || a[i].k != -99 || ix[i] != i || p[i] != a + i) FAIL("writes beyond the array"); } }
static int V[64], nfree; static void fr(void *v) { nfree++; }
static void *R[64]; static int n;
static void same(gdclist *l, const char *w) { int i; gdcelem *e = gdclist_first(l), *f = e; snprintf(where, 200, "%s (%d elements)", w, n);
  if (gdclist_count(l) != n) FAIL("count %d", gdclist_count(l)); if (gdclist_is_empty(l) != (n == 0)) FAIL("emptiness"); if (! n) { if (e || gdclist_last(l)) FAIL("an empty list has elements"); return; }
  for (i = 0; i < n; i++) { if (gdcelem_value(e) != R[i]) FAIL("element %d differs from the inserted one", i); if (gdcelem_retreat(gdcelem_advance(e)) != e || gdcelem_advance(gdcelem_retreat(e)) != e) FAIL("links of element %d disagree", i); e = gdcelem_advance(e); }
  if (e != f) FAIL("the ring does not close"); if (gdcelem_value(gdclist_last(l)) != R[n - 1]) FAIL("last element"); }
static void ins(int i, void *v) { memmove(R + i + 1, R + i, (n - i) * sizeof(*R)); R[i] = v; n++; }
static void del(int i) { memmove(R + i, R + i + 1, (n - i - 1) * sizeof(*R)); n--; }
static gdcelem *at(gdclist *l, int i) { gdcelem *e = gdclist_first(l); while (i--) e = gdcelem_advance(e); return e; }
static int upper(void *v) { int i = 0; while (i < n && ci(R[i], v) <= 0) i++; return i; }
static void history(int sortd) { gdclist *l = gdclist_create(); int s, steps = 3 + rand() % 25, i; void *v; gdcelem *e; n = 0; gdclist_set_comp(l, ci); same(l, "gdclist_create");
  for (s = 0; s < steps && n < 40; s++) { v = &V[rand() % 64]; int op = rand() % 14; char w[60]; e = NULL; sprintf(where, "operation %d on %d elements", op, n);
    if (sortd) op = op % 4 + 6;
    switch (op) {
    case 0: gdclist_insert_end(l, v); ins(n, v); same(l, "insert_end"); break;
    case 1: gdclist_insert_front(l, v); ins(0, v); same(l, "insert_front"); break;
    case 2: i = n ? rand() % n : 0; gdclist_insert(l, n ? at(l, i) : NULL, v); ins(n ? i + 1 : 0, v); same(l, "insert"); break;
    case 3: case 4: case 5: if (n) { i = rand() % n; e = gdclist_remove(l, at(l, i)); if (gdcelem_value(e) != R[i]) FAIL("remove returns another element"); v = R[i]; del(i); same(l, "remove");
        if (op == 3) { gdclist_add_end(l, e); ins(n, v); same(l, "add_end"); } if (op == 4) { gdclist_add_front(l, e); ins(0, v); same(l, "add_front"); } if (op == 5) { i = n ? rand() % n : 0; gdclist_add(l, n ? at(l, i) : NULL, e); ins(n ? i + 1 : 0, v); same(l, "add"); } } break;
    case 6: case 7: if (sortd) { gdclist_insert_sort_comp(l, v); ins(upper(v), v); same(l, "insert_sort_comp"); } break;
    case 8: if (sortd && n) { i = rand() % n; e = gdclist_remove(l, at(l, i)); v = R[i]; del(i); gdclist_add_sort_comp(l, e); ins(upper(v), v); same(l, "add_sort_comp"); } break;
    case 9: if (n && rand() % 2) { i = rand() % n; gdclist_delete(l, at(l, i)); del(i); same(l, "delete"); } break;
    case 10: for (i = 0; i < n && ci(v, R[i]); i++) ; e = gdclist_find_comp(l, v); if (i == n ? e != NULL : e != at(l, i)) FAIL("find_comp does not return the first equal element"); break;
    case 11: for (i = 0; i < n && ci(v, R[i]); i++) ; gdclist_delete_comp(l, v); if (i < n) del(i); same(l, "delete_comp"); break;
    case 12: for (i = 0; i < n && ci(v, R[i]); i++) ; e = gdclist_remove_comp(l, v); if ((e != NULL) != (i < n)) FAIL("remove_comp"); if (e) { if (gdcelem_value(e) != R[i]) FAIL("remove_comp returns another element"); del(i); free(e); } same(l, "remove_comp"); break;
    case 13: { int seen[64] = {0}, k; if (rand() % 3) break; for (k = 0; k < n; k++) seen[(int *) R[k] - V]++; gdclist_sort_comp(l); snprintf(where, 200, "sort_comp"); if (gdclist_count(l) != n) FAIL("elements lost");
        for (k = 0; k < n; k++) { R[k] = gdcelem_value(at(l, k)); seen[(int *) R[k] - V]--; if (k && ci(R[k - 1], R[k]) > 0) FAIL("not in order"); } for (k = 0; k < 64; k++) if (seen[k]) FAIL("not a permutation"); same(l, "sort_comp"); } break; } }
  nfree = 0; gdclist_set_free(l, fr); i = n; gdclist_empty(l); n = 0; same(l, "empty"); if (nfree != i) FAIL("%d of %d values released", nfree, i); gdclist_free(l); }
#define CMP(P, T) do { static const T v[] = {0, 1, 2, 5, 100, (T) -1, (T) -3, (T) 3e4, (T) (((T) -1 > 0) ? -1 : 1)}; int i, j; for (i = 0; i < 9; i++) for (j = 0; j < 9; j++) { T a = v[i], b = v[j], x[3], y[3]; int w = a < b ? -1 : a > b, k; snprintf(where, 200, "cmp_" #P " family"); \
  if (cmp_##P(a, b) != w || cmp_p_##P(&a, &b) != w || cmp_dec_##P(a, b) != -w || cmp_dec_p_##P(&a, &b) != -w) FAIL("values %d and %d", i, j); for (k = 0; k < 3; k++) { x[0] = x[1] = x[2] = y[0] = y[1] = y[2] = 7; x[k] = a; y[k] = b; if (k < 2) { x[2] = 9; y[2] = 8; } \
  if (cmp_n_##P(x, y, k + 1) != w || cmp_dec_n_##P(x, y, k + 1) != -w) FAIL("arrays that differ in element %d", k); } } } while (0)
#define DCL(P, T) int cmp_##P(T, T), cmp_p_##P(T *, T *), cmp_n_##P(T *, T *, long), cmp_dec_##P(T, T), cmp_dec_p_##P(T *, T *), cmp_dec_n_##P(T *, T *, long);
#define ALL(X) X(uc, uchar); X(c, char); X(us, ushort); X(s, short); X(ui, uint); X(i, int); X(ul, ulong); X(l, long); X(ull, uint64_t); X(ll, int64_t); X(f, float); X(d, double);
ALL(DCL)
int main(void) { int i, j, n; short k[300]; long c, t; signal(SIGSEGV, sig); signal(SIGABRT, sig); signal(SIGALRM, sig); signal(SIGBUS, sig); alarm(100); srand(7);
  setvbuf(stdout, NULL, _IONBF, 0);
  ALL(CMP)
  for (i = 0; i < 64; i++) V[i] = rand() % 20;
  for (i = 0; i < 4000; i++) history(i % 2);
  for (n = 0; n <= 6; n++) { for (t = 1, i = 0; i < n; i++) t *= n; for (c = 0; c < t; c++) { long q = c; for (i = 0; i < n; i++) { k[i] = q % n; q /= n; } sorts(k, n); } }
  for (j = 0; j < 1500; j++) { int m = 1 + rand() % 400; n = rand() % (j % 10 ? 40 : 300); for (i = 0; i < n; i++) k[i] = rand() % m; sorts(k, n); }
  return 0; }
