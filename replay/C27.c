/* two handles, used alternately (set calls and solves of one between those of the other) and then in two threads at the same time: each gives
   the results it gives when it is alone.  The sentinel that all trees of misc/gstruct share is never written. */
#define KERNELS XRTM_KERNEL_LI_SPARSE, XRTM_KERNEL_ROSS_THICK, XRTM_KERNEL_RAHMAN
#define COEF(k, l) ((k) == 0 || (k) == 3 ? (1 - .3 * ((k) == 3)) * (2 * (l) + 1) * pow(.45, l) * (.6 + .4 * V()) : .1 * pow(.4, l) * V())
#define TAU .0001
#define FTOL 1e-3
#define STAT static __thread
#include "gstruct.c"
#include "api.h"
#include "solve.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef struct { xrtm_data d; sh_t s; unsigned long seed; int c, OPT, SOLVER, STOKES, NE, NDD, NU, NV, EXTRA, FORCE, done, k, dead; res_t ref, ref2, r; } ctx_t;
static void in(ctx_t *x) { SEED = x->seed; OPT = x->OPT; SOLVER = x->SOLVER; STOKES = x->STOKES; NE = x->NE; NDD = x->NDD; NU = x->NU; NV = x->NV; EXTRA = x->EXTRA; FORCE = x->FORCE; }
static void out(ctx_t *x) { x->seed = SEED; x->OPT = OPT; x->SOLVER = SOLVER; x->STOKES = STOKES; x->NE = NE; x->NDD = NDD; x->NU = NU; x->NV = NV; x->EXTRA = EXTRA; x->FORCE = FORCE; }
static int begin(ctx_t *x, unsigned long seed, int c) { int q, it, solvers[] = {XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS}; memset(&x->s, 0, sizeof(x->s)); SEED = seed; x->c = c; x->done = 0; EXTRA = 0; FORCE = -1; if (make(&x->d, c, R(2) ? NTH : 0)) return 1; it = R(5);
     for (q = 0; q < 5; q++) if (solvers[(q + it) % 5] & SOLVER) { x->k = solvers[(q + it) % 5]; break; } out(x); return 0; }
/* one step: a set call, or the call that ends the set-up; 0 when the handle is ready */
static int step(ctx_t *x) { int r; in(x); if (x->done) return 0; if (!complete(&x->s)) { r = valid(&x->d, &x->s); out(x); return r ? -1 : 1; } if (NDD && xrtm_update_varied_layers(&x->d)) return -1; x->done = 1; out(x); return 1; }
static void sol_(ctx_t *x, res_t *r) { in(x); memset(r, 0, sizeof(*r)); solve(&x->d, x->k, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX, r); out(x); }
/* more set calls on a handle that has been used */
static int more(ctx_t *x, int n) { int i; in(x); for (i = 0; i < n; i++) if (valid(&x->d, &x->s)) return -1; if (NDD && xrtm_update_varied_layers(&x->d)) return -1; out(x); return 0; }
static int differ(const res_t *a, const res_t *b) { int i; if (a->rc != b->rc || a->n != b->n) return 1; for (i = 0; i < a->n; i++) if (!(a->v[i] != a->v[i] && b->v[i] != b->v[i]) && !(fabs(a->v[i] - b->v[i]) <= 1e-8 * (fabs(a->v[i]) + 1e-3))) return 1 + i; return 0; }
static ctx_t *TH[2]; static int bad[2];
static void *loop(void *p) { long i, t = (long) p; static __thread res_t r; for (i = 0; i < 60; i++) { memset(&r, 0, sizeof(r)); solve(&TH[t]->d, TH[t]->k, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX, &r); if (differ(&TH[t]->ref, &r)) { bad[t] = 1; break; } } return NULL; }
static int cmp_(const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
static ctx_t X[2], Y[2]; static res_t *SREF; static int *SH;
int main() { int it, i, j, a, b, n; static int v[4000]; SREF = mmap(NULL, 2 * sizeof(res_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (!getenv("TELL") && !freopen("/dev/null", "w", stderr)) return 0;
     gaatpos s0 = gaatree_null_node; gaatree *t = gaatree_create(); gaatree_set_comp(t, cmp_); for (i = 0; i < 4000; i++) { v[i] = (i * 7919) % 4001; gaatree_insert_comp(t, &v[i]); if (memcmp(&s0, &gaatree_null_node, sizeof(s0))) { printf("inserting %d values into one tree writes the sentinel shared by all trees\n", i + 1); return 1; } }
     for (it = 0; it < 90; it++) { int c[2] = {it % NCFG, (it + it / NCFG) % NCFG}; unsigned long sd[2] = {1000 + 17 * it, 5000 + 31 * it}; int skip = 0;
       for (i = 0; i < 2 && !skip; i++) { int st; pid_t p; fflush(stdout); p = fork(); if (!p) { *SH = 0; if (!begin(&X[i], sd[i], c[i])) { while ((a = step(&X[i])) > 0); if (a == 0) { sol_(&X[i], &SREF[0]); if (!more(&X[i], 14)) { sol_(&X[i], &SREF[1]); *SH = 1; } } } _exit(0); }
            waitpid(p, &st, 0); if (!*SH || !WIFEXITED(st)) skip = 1; X[i].ref = SREF[0]; X[i].ref2 = SREF[1]; *SH = 0; }      /* alone: in a process of its own */
       if (skip) continue;
       for (i = 0; i < 2; i++) { if (begin(&Y[i], sd[i], c[i])) return 0; Y[i].ref = X[i].ref; Y[i].ref2 = X[i].ref2; }
       for (n = 0; ; n++) { a = step(&Y[0]); b = step(&Y[1]); if (a < 0 || b < 0) { printf("pair %d: a set call fails on a handle while another handle is used\n", it); return 1; } if (!a && !b) break; }
       for (n = 0; n < 4; n++) for (i = 0; i < 2; i++) { sol_(&Y[i], &Y[i].r); if ((j = differ(&Y[i].ref, &Y[i].r))) { printf("configurations %d and %d: solver %x gives %.12g (rc %d) when another handle is used in between and %.12g (rc %d) when alone\n", c[0], c[1], Y[i].k, Y[i].r.v[j - 1], Y[i].r.rc, Y[i].ref.v[j - 1], Y[i].ref.rc); return 1; }
            in(&Y[i]); if (cmp(&Y[i].d, &Y[i].s)) { printf("   after the other handle was used\n"); return 1; } }
       if (c[0] == c[1] && Y[0].NU == Y[1].NU && Y[0].NV == Y[1].NV) { pthread_t p[2]; long k; in(&Y[0]); bad[0] = bad[1] = 0; for (k = 0; k < 2; k++) { TH[k] = &Y[k]; pthread_create(&p[k], NULL, loop, (void *) k); } for (k = 0; k < 2; k++) pthread_join(p[k], NULL);
            if (bad[0] || bad[1]) { printf("configuration %d: solvers %x and %x in two threads at the same time give other results than alone\n", c[0], Y[0].k, Y[1].k); return 1; } }
       for (i = 0; i < 2; i++) { if (more(&Y[i], 14)) { printf("pair %d: a set call fails on a handle while another handle is used\n", it); return 1; } Y[i].ref = Y[i].ref2; }
       for (n = 0; n < 2; n++) for (i = 0; i < 2; i++) { sol_(&Y[i], &Y[i].r); if ((j = differ(&Y[i].ref, &Y[i].r))) { printf("configurations %d and %d, after further set calls: solver %x gives %.12g (rc %d) when another handle is used in between and %.12g (rc %d) when alone\n", c[0], c[1], Y[i].k, Y[i].r.v[j - 1], Y[i].r.rc, Y[i].ref.v[j - 1], Y[i].ref.rc); return 1; } }
       xrtm_destroy(&Y[1].d); sol_(&Y[0], &Y[0].r); if (differ(&Y[0].ref, &Y[0].r)) { printf("configuration %d: the results change when another handle is destroyed\n", c[0]); return 1; }
       xrtm_destroy(&Y[0].d); }
     return 0; }
