/* scratch buffers: histories of requests in nested scopes; every region handed out is inside a live block, disjoint from all others of
   the scope and its enclosing scopes, and keeps its contents until its scope ends */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gutil.h"
#include "xrtm.h"
#include "xrtm_work.h"
#include "xrtm_utility.h"
#undef get_work1
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t); extern void __libc_free(void *);
#define NB (1 << 16)
static struct { char *p; size_t n; } blk_[NB]; static int nb_, on_, wrong_;
static void *add_(void *p, size_t n) { if (on_ && p && nb_ < NB) { blk_[nb_].p = p; blk_[nb_++].n = n; } return p; }
static void del_(void *p) { int i; if (!on_ || !p) return; for (i = nb_ - 1; i >= 0; i--) if (blk_[i].p == p) { blk_[i] = blk_[--nb_]; return; } wrong_++; }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && on_) memset(p, 0x5A, n); return add_(p, n); }
void *calloc(size_t n, size_t m) { return add_(__libc_calloc(n, m), n * m); }
void *realloc(void *q, size_t n) { del_(q); return add_(__libc_realloc(q, n), n); }
void free(void *p) { if (on_ && p) { int k = wrong_; del_(p); if (wrong_ != k) return; } __libc_free(p); }
static unsigned long long sd_ = 88172645463325252ULL; static unsigned R_(unsigned n) { sd_ ^= sd_ << 13; sd_ ^= sd_ >> 7; sd_ ^= sd_ << 17; return (unsigned) ((sd_ >> 20) % n); }
static struct { char *p; size_t n; char *copy; } live_[1 << 15]; static int nl_; static char what_[200]; static int bad_;
static int fail(const char *s) { if (!bad_++) printf("%s: %s\n", what_, s); return 1; }
static int region(void *p_, size_t n, int table) { int i; char *p = p_; size_t k; if (!n) return 0; if (nl_ >= (1 << 15)) return 0;
  for (i = 0; i < nb_; i++) if (p >= blk_[i].p && p + n <= blk_[i].p + blk_[i].n) break; if (i == nb_) return fail("not inside a block of the workspace");
  for (i = 0; i < nl_; i++) if (p < live_[i].p + live_[i].n && live_[i].p < p + n) return fail("overlaps a buffer handed out before");
  if (!table) for (k = 0; k < n; k++) p[k] = R_(256);
  live_[nl_].p = p; live_[nl_].n = n; live_[nl_].copy = __libc_malloc(n); memcpy(live_[nl_++].copy, p, n); return 0; }
static int intact(int from) { int i; for (i = from; i < nl_; i++) if (memcmp(live_[i].p, live_[i].copy, live_[i].n)) return fail("contents of a buffer changed"); return 0; }
static void drop(int to) { while (nl_ > to) __libc_free(live_[--nl_].copy); }
/* array of rank r; tables and elements are regions */
static int array(void *a, int r, const size_t *d, size_t size) { size_t i; if (r == 1) return region(a, d[0] * size, 0); if (region(a, d[0] * sizeof(void *), 1)) return 1; 
  for (i = 0; i < d[0]; i++) if (array(((void **) a)[i], r - 1, d + 1, size)) return 1; return 0; }
static int Q, X, U, S, D, L, F; static unsigned char *f1; static unsigned char **f2;
static const char *KN[] = {"IX", "IX2", "DQQ", "DX", "DX2", "DXX", "DXX2", "DD", "DS", "DU", "DUX", "DDERIVS", "DLAYERS", "DBOTH", "ZX", "ZXX", "ZU", "ZUX"};
static int kind(int k, size_t *d, size_t *size) { int r = 1; *size = 8; d[1] = 1; switch (k) {
  case WORK_IX: *size = 4; d[0] = X; break; case WORK_IX2: *size = 4; d[0] = 2 * X; break; case WORK_DQQ: r = 2; d[0] = d[1] = Q; break; case WORK_DX: d[0] = X; break; case WORK_DX2: d[0] = 2 * X; break;
  case WORK_DXX: r = 2; d[0] = d[1] = X; break; case WORK_DXX2: r = 2; d[0] = d[1] = 2 * X; break; case WORK_DD: d[0] = Q + U; break; case WORK_DS: d[0] = S; break; case WORK_DU: d[0] = U; break;
  case WORK_DUX: r = 2; d[0] = U; d[1] = X; break; case WORK_DDERIVS: d[0] = D; break; case WORK_DLAYERS: d[0] = L; break; case WORK_DBOTH: r = 2; d[0] = L; d[1] = D; break;
  case WORK_ZX: *size = 16; d[0] = X; break; case WORK_ZXX: *size = 16; r = 2; d[0] = d[1] = X; break; case WORK_ZU: *size = 16; d[0] = U; break; case WORK_ZUX: *size = 16; r = 2; d[0] = U; d[1] = X; break; } return r; }
static void flags(int n, int m) { int i, j; for (i = 0; i < n; i++) f1[i] = R_(2); flags_fill_meta(f1, n); for (i = 0; i < m; i++) for (j = 0; j < D; j++) f2[i][j] = R_(2); flags_fill_meta2(f2, m, D); }
static int request(work_data *w) { size_t d[8], size; int i, j, k = R_(N_WORK_TYPES), r, use = R_(2); size_t e[4]; void *a; if (nl_ > 9000) return 0;
  switch (R_(10)) {
    case 0: case 1: r = kind(k, d, &size); sprintf(what_, "one buffer %s", KN[k]); return array(work_get1(w, k), r, d, size);
    case 2: { int v = R_(2) ? WORK_DERIVS_V : WORK_LAYERS_V, n = v == WORK_DERIVS_V ? D : L; void **t; flags(n, L); r = kind(k, d, &size); sprintf(what_, "table of buffers %s", KN[k]); t = work_get2(w, k, v, use ? f1 : NULL);
      for (i = 0; i < n; i++) if (!use || f1[i]) if (array(t[i], r, d, size)) return 1; return region(t, n * sizeof(void *), 1); }
    case 3: { void ***t; flags(D, L); r = kind(k, d, &size); sprintf(what_, "tables of buffers %s", KN[k]); t = work_get3(w, k, WORK_BOTH_V, use ? f2 : NULL);
      for (i = 0; i < L; i++) { for (j = 0; j < D; j++) if (!use || f2[i][j]) if (array(t[i][j], r, d, size)) return 1; if (region(t[i], D * sizeof(void *), 1)) return 1; } return region(t, L * sizeof(void *), 1); }
    default: if (L > 30) return 0; for (i = 0; i < 4; i++) e[i] = R_(R_(8) ? 6 : 24); size = R_(2) ? 8 : R_(2) ? 4 : 16; sprintf(what_, "array %d %d %d %d of size %d", (int) e[0], (int) e[1], (int) e[2], (int) e[3], (int) size);
#define T3(f, ...) (size == 8 ? (void *) get_work_d##f(__VA_ARGS__) : size == 4 ? (void *) get_work_i##f(__VA_ARGS__) : (void *) get_work_dc##f(__VA_ARGS__))
#define ONE(f, r, ...) { void **t; flags(D, L); strcat(what_, " with flags"); t = T3(f, __VA_ARGS__, use ? f1 : NULL); for (i = 0; i < D; i++) if (!use || f1[i]) if (array(t[i], r, e + 1, size)) return 1; return region(t, D * sizeof(void *), 1); }
#define TWO(f, r, ...) { void ***t; flags(D, L); strcat(what_, " with flags"); t = T3(f, __VA_ARGS__, use ? f2 : NULL); for (i = 0; i < L; i++) { for (j = 0; j < D; j++) if (!use || f2[i][j]) if (array(t[i][j], r, e + 2, size)) return 1; if (region(t[i], D * sizeof(void *), 1)) return 1; } return region(t, L * sizeof(void *), 1); }
      switch (R_(9)) {
        case 0: if (!R_(9)) return array(get_work_uc1(w, e[0]), 1, e, 1); a = T3(1, w, e[0]); return array(a, 1, e, size);
        case 1: a = T3(2, w, e[0], e[1]); return array(a, 2, e, size);
        case 2: a = T3(3, w, e[0], e[1], e[2]); return array(a, 3, e, size);
        case 3: a = T3(4, w, e[0], e[1], e[2], e[3]); return array(a, 4, e, size);
        case 4: ONE(2_m_flags, 1, w, D, e[1])
        case 5: ONE(3_m_flags, 2, w, D, e[1], e[2])
        case 6: case 7: TWO(3_m_n_flags, 1, w, L, D, e[2])
        default: TWO(4_m_n_flags, 2, w, L, D, e[2], e[3]) } } }
static int scope(work_data w, int depth) { int n = 1 + R_(8), base = nl_; while (n--) { if (depth < 5 && !R_(4)) { if (scope(w, depth + 1)) return 1; } else if (request(&w)) return 1; if (intact(0)) return 1; } drop(base); return 0; }
int main(int c, char **v) { int h, k, i; static char b[4096]; setvbuf(stdout, b, _IOLBF, sizeof(b));
  for (h = 0; h < (c > 1 ? atoi(v[1]) : 700); h++) { work_data w; int nq = (memset(&w, 0x5A, sizeof w), 1) + R_(6), nx = nq + R_(3), ns = R_(3) ? 1 : 1 + R_(4), nd = R_(5), ny = 1 + R_(5), nu = R_(4); if (!R_(60)) { nd = 30 + R_(10); ny = 40 + R_(20); nq = 1 + R_(2); nx = nq; ns = 1; nu = R_(2); }
    Q = nq * ns; X = nx * ns; S = ns; D = nd; L = ny + 1; U = nu * ns; f1 = flags_alloc(D > L ? D : L); f2 = flags_alloc2(L, D); if (!f1) f1 = calloc(64, 1);
    nb_ = wrong_ = 0; on_ = 1; if (work_init(&w, nq, nx, ns, nd, ny, nu)) return 1; strcpy(what_, "history");
    for (k = 0; k < 3; k++) if (scope(w, 0)) { printf("history %d\n", h); return 1; }
    if (!R_(6)) { int m = 1000 + R_(200), from = nl_; for (i = 0; i < m; i++) { size_t d[8], size; int kk = R_(4) * 3, r = kind(kk, d, &size); sprintf(what_, "many buffers %s", KN[kk]); if (array(work_get1(&w, kk), r, d, size)) return 1; } if (intact(0)) return 1; drop(from); }
    drop(0); work_free(&w); on_ = 0; if (wrong_) { printf("history %d: %d releases of what is not held\n", h, wrong_); return 1; } if (nb_) { printf("history %d: %d blocks never released\n", h, nb_); return 1; } }
  return 0; }
