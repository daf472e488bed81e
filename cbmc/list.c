/* Contracts of the loop-free list operations (misc/gstruct_dclist.h as instantiated by misc/gstruct.c), for lists of every length: the pool
   below holds every node within two links of the ones the operation may touch; a node outside the pool is never dereferenced.
   Links are consistent (x->next->prev == x->prev->next == x) around the nodes concerned; everything else is arbitrary. */
#include <stdlib.h>
#include "gutil.h"
#include "gstruct.h"
#define N 9
gdcelem p[N]; gdcelem o[N]; gdclist L, LO;
unsigned char nondet_uc(void); void *nondet_p(void); int nondet_i(void);
static gdcelem *any(void) { unsigned char i = nondet_uc(); __CPROVER_assume(i < N); return &p[i]; }
static void good(gdcelem *x) { __CPROVER_assume(x->next->prev == x && x->prev->next == x); }
static void setup(void) {
     int i;
     for (i = 0; i < N; ++i) { p[i].value = nondet_p(); p[i].next = any(); p[i].prev = any(); }
     L.comp = 0; L.free_ = 0; L.print = 0; L.first = nondet_uc() % 2 ? any() : NULL;
     if (L.first) { good(L.first); good(L.first->prev); }
}
static void snap(void) { int i; for (i = 0; i < N; ++i) o[i] = p[i]; LO = L; }
#define OLD(x) (o[(x) - p])
/* fields that changed are exactly the listed ones */
static void frame(gdcelem *nx, gdcelem *pv) {     /* nx: only node whose next may change; pv: only node whose prev may change */
     unsigned char i = nondet_uc(); __CPROVER_assume(i < N);
     __CPROVER_assert(&p[i] == nx || p[i].next == o[i].next, "frame: forward links of the other nodes");
     __CPROVER_assert(&p[i] == pv || p[i].prev == o[i].prev, "frame: backward links of the other nodes");
     __CPROVER_assert(p[i].value == o[i].value, "frame: values");
     __CPROVER_assert(L.comp == LO.comp && L.free_ == LO.free_ && L.print == LO.print, "frame: list callbacks");
}
/* t sits between a and b, which were neighbours; nothing else changed */
static void inserted(gdcelem *t, gdcelem *a, void *v) {
     __CPROVER_assert(t != NULL, "an element is returned");
     __CPROVER_assert(t->value == v, "the element holds the value");
     if (LO.first == NULL) { __CPROVER_assert(L.first == t && t->next == t && t->prev == t, "one element, linked to itself"); frame(NULL, NULL); return; }
     gdcelem *b = OLD(a).next;
     __CPROVER_assert(t->prev == a && t->next == b, "the new element points to its neighbours");
     __CPROVER_assert(a->next == t && b->prev == t, "the neighbours point to the new element");
     frame(a, b);
}
static gdcelem fresh;
void h_insert(void) { setup(); gdcelem *a = any(); void *v = nondet_p(); good(a); snap(); gdcelem *t = gdclist_insert(&L, a, v);
     inserted(t, a, v); if (LO.first) __CPROVER_assert(L.first == LO.first, "the first element stays"); }
void h_insert_end(void) { setup(); void *v = nondet_p(); snap(); gdcelem *t = gdclist_insert_end(&L, v);
     inserted(t, LO.first ? OLD(LO.first).prev : NULL, v); if (LO.first) __CPROVER_assert(L.first == LO.first && L.first->prev == t, "the new element is the last one"); }
void h_insert_front(void) { setup(); void *v = nondet_p(); snap(); gdcelem *t = gdclist_insert_front(&L, v);
     inserted(t, LO.first ? OLD(LO.first).prev : NULL, v); __CPROVER_assert(L.first == t, "the new element is the first one");
     if (LO.first) __CPROVER_assert(t->next == LO.first, "the former first element follows"); }
void h_add(void) { setup(); gdcelem *a = any(); fresh.value = nondet_p(); fresh.next = nondet_p(); fresh.prev = nondet_p(); void *v = fresh.value; good(a); snap(); gdclist_add(&L, a, &fresh);
     inserted(&fresh, a, v); if (LO.first) __CPROVER_assert(L.first == LO.first, "the first element stays"); }
void h_add_end(void) { setup(); fresh.value = nondet_p(); void *v = fresh.value; snap(); gdclist_add_end(&L, &fresh);
     inserted(&fresh, LO.first ? OLD(LO.first).prev : NULL, v); if (LO.first) __CPROVER_assert(L.first == LO.first && L.first->prev == &fresh, "the new element is the last one"); }
void h_add_front(void) { setup(); fresh.value = nondet_p(); void *v = fresh.value; snap(); gdclist_add_front(&L, &fresh);
     inserted(&fresh, LO.first ? OLD(LO.first).prev : NULL, v); __CPROVER_assert(L.first == &fresh, "the new element is the first one");
     if (LO.first) __CPROVER_assert(fresh.next == LO.first, "the former first element follows"); }
static void removed(gdcelem *x) {
     if (OLD(x).next == x) { __CPROVER_assert(L.first == NULL, "removing the only element empties the list"); return; }
     gdcelem *a = OLD(x).prev, *b = OLD(x).next;
     __CPROVER_assert(a->next == b && b->prev == a, "the neighbours point to each other");
     __CPROVER_assert(L.first == (x == LO.first ? b : LO.first), "the first element moves only when it is the one removed");
}
void h_remove(void) { setup(); __CPROVER_assume(L.first); gdcelem *x = any(); good(x); if (x->next == x) __CPROVER_assume(L.first == x); snap(); gdcelem *r = gdclist_remove(&L, x);
     __CPROVER_assert(r == x && r->value == OLD(x).value, "the element itself is returned"); removed(x);
     if (OLD(x).next != x) frame(OLD(x).prev, OLD(x).next); else frame(NULL, NULL); }
static void *freed; static int n_freed; static void cb(void *v) { freed = v; ++n_freed; }
void h_delete(void) { setup(); __CPROVER_assume(L.first); unsigned char hook = nondet_uc() % 2; if (hook) L.free_ = cb; n_freed = 0;
     gdcelem *x = malloc(sizeof(*x)), *a = any(), *b = any(); __CPROVER_assume(x); unsigned char only = nondet_uc() % 2; void *v = nondet_p(); x->value = v;
     if (only) { x->next = x->prev = x; L.first = x; }
     else { x->next = b; x->prev = a; b->prev = x; a->next = x; if (nondet_uc() % 2) L.first = x; }
     snap(); gdclist_delete(&L, x);
     if (only) { __CPROVER_assert(L.first == NULL, "deleting the only element empties the list"); frame(NULL, NULL); }
     else { __CPROVER_assert(a->next == b && b->prev == a, "the neighbours point to each other");
            __CPROVER_assert(L.first == (LO.first == x ? b : LO.first), "the first element moves only when it is the one deleted"); frame(a, b); }
     __CPROVER_assert(n_freed == hook && (!hook || freed == v), "the value is released exactly once"); }
void h_ends(void) { setup(); snap(); gdcelem *x = any();
     __CPROVER_assert(gdclist_first(&L) == LO.first, "first"); __CPROVER_assert(gdclist_last(&L) == (LO.first ? OLD(LO.first).prev : NULL), "last");
     __CPROVER_assert(gdclist_is_empty(&L) == (LO.first == NULL), "empty"); __CPROVER_assert(gdcelem_advance(x) == OLD(x).next && gdcelem_retreat(x) == OLD(x).prev, "neighbours");
     __CPROVER_assert(gdcelem_value(x) == OLD(x).value && gdcelem_pointer(x) == &x->value, "value"); frame(NULL, NULL); }
void h_create(void) { gdclist *l = gdclist_create(); __CPROVER_assert(l && l->first == NULL && !l->comp && !l->free_ && !l->print, "a new list is empty"); }
/* ---- bounded: whole rings of up to M elements */
#ifndef M
#define M 4
#endif
static int val[8]; static gdcelem *e[8]; static int m;
static int cmpi(const void *a, const void *b) { return *(const int *) a < *(const int *) b ? -1 : *(const int *) a > *(const int *) b; }
static int key[8], nk; static void *K(int v) { key[nk] = v; return &key[nk++]; }
static void ring(int maxm) {
     int i; m = nondet_i(); __CPROVER_assume(0 <= m && m <= maxm);
     L.first = NULL; L.comp = cmpi; L.free_ = 0; L.print = 0;
     for (i = 0; i < m; ++i) { e[i] = malloc(sizeof(gdcelem)); __CPROVER_assume(e[i]); val[i] = nondet_i(); e[i]->value = &val[i]; }
     for (i = 0; i < m; ++i) { e[i]->next = e[i + 1 < m ? i + 1 : 0]; e[i]->prev = e[i ? i - 1 : m - 1]; }
     if (m) L.first = e[0];
}
static void links(int n) { int i; gdcelem *q = L.first; for (i = 0; i < n; ++i) { __CPROVER_assert(q->next->prev == q && q->prev->next == q, "links agree"); q = q->next; __CPROVER_assert((q == L.first) == (i == n - 1), "the ring closes after its last element"); } }
void b_count(void) { ring(M); __CPROVER_assert(gdclist_count(&L) == m, "count"); }
void b_find(void) { ring(M); int v = nondet_i(), i; gdcelem *r = gdclist_find_comp(&L, &v), *x = NULL; for (i = m - 1; i >= 0; --i) if (val[i] == v) x = e[i]; __CPROVER_assert(r == x, "the first element equal to the key, or none"); }
void b_empty(void) { ring(M); L.free_ = cb; n_freed = 0; gdclist_empty(&L); __CPROVER_assert(L.first == NULL && n_freed == m, "every value released once"); }
static void sorted(int n) { int i; gdcelem *q = L.first; for (i = 0; i + 1 < n; ++i) { __CPROVER_assert(cmpi(q->value, q->next->value) <= 0, "in order"); q = q->next; } }
static int has(int n, void *v) { int i, k = 0; gdcelem *q = L.first; for (i = 0; i < n; ++i) { k += q->value == v; q = q->next; } return k; }
void b_insert_sort(void) { ring(M); int i, v = nondet_i(); for (i = 0; i + 1 < m; ++i) __CPROVER_assume(val[i] <= val[i + 1]); gdclist_insert_sort_comp(&L, &v); links(m + 1); sorted(m + 1); __CPROVER_assert(has(m + 1, &v) == 1, "the value is in the list once"); for (i = 0; i < m; ++i) __CPROVER_assert(has(m + 1, &val[i]) == 1, "every other value is kept"); }
void b_add_sort(void) { ring(M); int i, v = nondet_i(); fresh.value = &v; for (i = 0; i + 1 < m; ++i) __CPROVER_assume(val[i] <= val[i + 1]); gdclist_add_sort_comp(&L, &fresh); links(m + 1); sorted(m + 1); __CPROVER_assert(has(m + 1, &v) == 1, "the value is in the list once"); for (i = 0; i < m; ++i) __CPROVER_assert(has(m + 1, &val[i]) == 1, "every other value is kept"); }
void b_sort(void) { ring(M); int i; gdclist_sort_comp(&L); links(m); sorted(m); for (i = 0; i < m; ++i) __CPROVER_assert(has(m, &val[i]) == 1, "every value is kept once"); }
