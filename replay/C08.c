/* histories of handles on the real code: every block acquired between creation and destruction is released exactly once */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t); extern void __libc_free(void *);
#define HN (1 << 18)
static void *tab_[HN]; static unsigned slot_[HN]; static int nslot_; static unsigned long long cnt_; static long live_, wrong_, first_ = -1; static long num_[HN]; static int on_;
static unsigned hash_(void *p) { return (unsigned) (((unsigned long) p >> 4) * 2654435761UL >> 7) % HN; }
static void add_(void *p) { unsigned h = hash_(p); if (!p) return; while (tab_[h] && tab_[h] != (void *) 1) h = (h + 1) % HN; if (!tab_[h]) slot_[nslot_++] = h; tab_[h] = p; num_[h] = cnt_++; live_++; }
static int del_(void *p) { unsigned h = hash_(p); while (tab_[h]) { if (tab_[h] == p) { tab_[h] = (void *) 1; live_--; return 1; } h = (h + 1) % HN; } return 0; }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (on_) { if (p) memset(p, 0xA5, n); add_(p); } return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (on_) add_(p); return p; }
void *realloc(void *q, size_t n) { void *p; if (on_ && q && !del_(q)) wrong_++; p = __libc_realloc(q, n); if (on_) add_(p); return p; }
void free(void *p) { if (on_ && p) { if (!del_(p)) { wrong_++; return; } } __libc_free(p); }
static void start_(void) { while (nslot_) tab_[slot_[--nslot_]] = NULL; live_ = wrong_ = 0; cnt_ = 0; on_ = 1; }
static int stop_(const char *what) { long i, n = -1; on_ = 0; for (i = 0; i < HN; i++) if (tab_[i] && tab_[i] != (void *) 1 && (n < 0 || num_[i] < n)) n = num_[i];
  if (wrong_) { printf("%s: %ld releases of blocks that are not held\n", what, wrong_); return 1; } if (live_) { printf("%s: %ld blocks never released (allocation %ld)\n", what, live_, n); return 1; } return 0; }
/* every accepted configuration: created and destroyed */
static int bad8_ = 0; static char cfg_[400];
struct xrtm_data; 
#define main configurations
#define R R3
#define r32 r32_3
#define sd sd3
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
static int cr_(xrtm_data *d, int o, int s, int nc, int nq, int ns, int nd, int nl, int nt, int nk, int nkq, enum xrtm_kernel_type *k, int nv, int nu) { int r; start_(); r = xrtm_create(d, o, s, nc, nq, ns, nd, nl, nt, nk, nkq, k, nv, nu); if (r) { on_ = 0; return r; }
  sprintf(cfg_, "options %#x, solvers %#x, max_coef %d, n_quad %d, n_stokes %d, n_derivs %d, n_layers %d, n_kernels %d, n_kernel_quad %d, n_out_levels %d, n_out_thetas %d", o, s, nc, nq, ns, nd, nl, nk, nkq, nv, nu); return 0; }
static int ds_(xrtm_data *d) { int r = xrtm_destroy(d); if (stop_(cfg_)) bad8_ = 1; if (r) { printf("%s: xrtm_destroy() returns %d\n", cfg_, r); bad8_ = 1; } return r; }
#define xrtm_create cr_
#define xrtm_destroy(d) do { ds_(d); if (bad8_) return 1; } while (0)
#include "C03.c"
#undef xrtm_create
#undef xrtm_destroy
#undef main
#undef R
#undef r32
#undef sd
#undef O
#undef S
#undef BAD
#undef NOS
#undef TWO
#define SOLV 1
#undef SOLV
#define KERNELS XRTM_KERNEL_DIRECT_AND_DIFFUSE, XRTM_KERNEL_LAMBERTIAN
#define COEF(k, l) ((k) == 0 || (k) == 3 ? (1 - .3 * ((k) == 3)) * (2 * (l) + 1) * pow(.45, l) * (.6 + .4 * V()) : .1 * pow(.4, l) * V())
#define TAU .01
#define FTOL 1e-3
#include "api.h"
#include "solve.h"
static int histories(void) { int c, it, n, q, k, used = 0, solvers[] = {XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS};
     for (it = 0; it < 24; it++) for (c = 0; c < NCFG; c++) { static xrtm_data d; static sh_t s; static res_t r; int rc, full; memset(&s, 0, sizeof(s)); EXTRA = 0; FORCE = -1; for (q = 0; q < 5; q++) if (it && R(2)) EXTRA |= XRTM_OPTION_SAVE_LEG_POLYS << q; if (it % 3 == 2) { EXTRA |= XRTM_OPTION_STACK_REUSE_ADDING; EXTRA &= ~(XRTM_OPTION_SAVE_LAYER_R_T_S); }
     start_(); rc = make(&d, c, it % 2 ? NTH : 0); if (rc) { on_ = 0; continue; } used++;  full = it % 4 ? !fill(&d, &s) : 0; for (n = 0; !full && n < 6; n++) if (valid(&d, &s)) break;
     for (k = q = 0; q < 5; q++) if (solvers[(q + it) % 5] & SOLVER) k = solvers[(q + it) % 5];
     for (n = 0; n < 1 + it % 3; n++) { if (NDD) xrtm_update_varied_layers(&d); solve(&d, k, XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX, &r); for (q = 0; full && q < 3; q++) valid(&d, &s); }
     xrtm_destroy(&d); sprintf(cfg_, "options %#x, solvers %#x (%s), %d updates and solves", OPT, SOLVER, full ? "all inputs set" : "inputs missing", 1 + it % 3); if (stop_(cfg_)) return 1; } if (getenv("TELL")) printf("%d histories\n", used); return 0; }
/* reuse of stacks: the active derivatives change between solves */
static int reuse(void) { int c, it, n, i, j, k, used = 0; for (c = 0; c < NCFG; c++) { if (!(CFG[c][1] & XRTM_SOLVER_EIG_ADD) || !(CFG[c][0] & XRTM_OPTION_CALC_DERIVS)) continue;
     for (it = 0; it < 150; it++) { static xrtm_data d; static sh_t s; static res_t r; double z[6][NC], *pz[6], t[NC], *pt[6]; memset(&s, 0, sizeof(s)); memset(z, 0, sizeof(z)); for (k = 0; k < 6; k++) { pz[k] = z[k]; pt[k] = t; } for (k = 0; k < NC; k++) t[k] = .1 * V(); t[0] = 0.; EXTRA = XRTM_OPTION_STACK_REUSE_ADDING; FORCE = -1; start_(); if (make(&d, c, 0)) { on_ = 0; continue; } if (fill(&d, &s)) { on_ = 0; continue; } used++;
     for (n = 0; n < 4; n++) { for (i = 0; i < NL; i++) for (j = 0; j < NDD; j++) { int a = R(3) == 0; xrtm_set_omega_l_11(&d, i, j, a ? V() : 0.); xrtm_set_ltau_l_11(&d, i, j, a ? V() : 0.); xrtm_set_coef_l_11(&d, i, j, a ? pt : pz); }
       for (i = 0; i < NK; i++) for (j = 0; j < NDD; j++) { double q[MP] = {0}; xrtm_set_kernel_ampfac_l_1(&d, i, j, R(3) ? 0. : V()); if (kernel_n_params(KT[i])) xrtm_set_kernel_params_l_1n(&d, i, j, q); }
       if (xrtm_update_varied_layers(&d)) return 0; if (R(4)) solve(&d, XRTM_SOLVER_EIG_ADD, XRTM_OUTPUT_RADIANCE, &r); }
     xrtm_destroy(&d); sprintf(cfg_, "options %#x, solvers %#x, active derivatives changed %d times between solves", OPT, SOLVER, n); if (stop_(cfg_)) return 1; } } if (getenv("TELL")) printf("%d with changing derivatives\n", used); return 0; }
int main(void) { static char b[4096]; setvbuf(stdout, b, _IOLBF, sizeof(b)); return reuse() || histories() || configurations(); }
