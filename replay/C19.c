/* Finite difference interface: setters and getters against shadow values; derivatives against differences of two independent solves;
   inputs after the call against inputs before. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include "gutil.h"
#include "xrtm_interface.h"
#include "xrtm_fd_interface.h"
#define ML 4
#define MD 4
#define MC 5
#define ME 6
#define MK 2
static unsigned long long rs_ = 88172645463325252ULL;
static unsigned rnd(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return (unsigned) (rs_ >> 20); }
static double uni(double a, double b) { return a + (b - a) * (rnd() % 100000) / 100000.; }
static int R(int n) { return rnd() % n; }
typedef struct { double ft, fb, sb, lb[ML + 1], w[ML], t[ML], g[ML][ME][MC], amp[MK], par[MK][4]; } q_t;      /* inputs, or one perturbation */
typedef struct { int nl, nd, nk, ns, ne, opts, solver, nu, nc, ncl[ML]; enum xrtm_kernel_type kk[MK]; double th0, F0, um[2], ph[2]; q_t x; q_t p[MD]; double delta[MD]; } c_t;
static int NP[] = { 0, 4, 0, 2, 2, 0, 0, 3, 3, 2, 4 };
static int bad; static long trial_;
#define SAY(...) do { printf("trial %ld: ", trial_); printf(__VA_ARGS__); printf("\n"); fflush(stdout); bad = 1; } while (0)
#define TH(c) ((c)->opts & XRTM_OPTION_SOURCE_THERMAL)
static int mk(c_t *c, xrtm_data *d) { return xrtm_create(d, c->opts, c->solver, c->nc, 2, c->ns, 0, c->nl, 1, c->nk, 3, c->kk, 2, c->nu); }
static void put(c_t *c, xrtm_data *d, q_t *x) { int i, k, l; int lev[2] = { 0, c->nl }; double *cc[ME];
  xrtm_set_fourier_tol(d, 0.); xrtm_set_out_levels(d, lev); if (c->nu) xrtm_set_out_thetas(d, c->um);
  if (c->opts & XRTM_OPTION_SOURCE_SOLAR) { xrtm_set_F_0(d, c->F0); xrtm_set_theta_0(d, c->th0); xrtm_set_phi_0(d, 10.); }
  xrtm_set_F_iso_top(d, x->ft); xrtm_set_F_iso_bot(d, x->fb);
  if (TH(c)) { xrtm_set_levels_b(d, x->lb); xrtm_set_surface_b(d, x->sb); }
  for (i = 0; i < c->nl; i++) { for (k = 0; k < c->ne; k++) cc[k] = x->g[i][k]; xrtm_set_coef_1(d, i, c->ncl[i], cc); xrtm_set_omega_1(d, i, x->w[i]); xrtm_set_ltau_1(d, i, x->t[i]); }
  for (k = 0; k < c->nk; k++) { xrtm_set_kernel_ampfac(d, k, x->amp[k]); for (l = 0; l < NP[c->kk[k]]; l++) xrtm_set_kernel_params_1(d, k, l, x->par[k][l]); } }
#define NR (2*2*2*2*4)
typedef struct { double v[2][2][2][2][4]; double ***P[2][2], **Q[2][2][2], *S[2][2][2][2]; } r_t;
static void mkr(r_t *r) { int a, b, c, e; memset(r, 0, sizeof *r); for (a = 0; a < 2; a++) for (b = 0; b < 2; b++) { r->P[a][b] = (void *) r->Q[a][b]; for (c = 0; c < 2; c++) { r->Q[a][b][c] = r->S[a][b][c]; for (e = 0; e < 2; e++) r->S[a][b][c][e] = r->v[a][b][c][e]; } } }
static int solve(c_t *c, q_t *x, r_t *r) { xrtm_data d; double *pp[2] = { c->ph, c->ph }; int e; mkr(r); if (mk(c, &d)) return 1; put(c, &d, x); e = xrtm_radiance(&d, c->solver, 2, pp, r->P[0], r->P[1], NULL, NULL); xrtm_destroy(&d); return e; }
static void lin(q_t *y, q_t *x, double f, q_t *p) { double *a = (double *) y, *b = (double *) x, *q = (double *) p; unsigned i; for (i = 0; i < sizeof(q_t) / sizeof(double); i++) a[i] = b[i] + f * q[i]; }
static void readback(c_t *c, xrtm_data *d) { int i, k, l; double t[ML + 1]; q_t *x = &c->x;
#define CMP(n, a, b) do { double a_ = a, b_ = b; if (!(fabs(a_ - b_) <= 1e-12*(1. + fabs(b_)))) SAY("input %s is %.15g after the call, was %.15g", n, a_, b_); } while (0)
  CMP("F_iso_top", xrtm_get_F_iso_top(d), x->ft); CMP("F_iso_bot", xrtm_get_F_iso_bot(d), x->fb);
  if (TH(c)) { xrtm_get_levels_b(d, t); for (i = 0; i <= c->nl; i++) CMP("levels_b", t[i], x->lb[i]); CMP("surface_b", xrtm_get_surface_b(d), x->sb); }
  for (i = 0; i < c->nl; i++) { CMP("omega", xrtm_get_omega(d, i), x->w[i]); CMP("ltau", xrtm_get_ltau(d, i), x->t[i]); for (k = 0; k < c->ne; k++) for (l = 0; l < c->ncl[i]; l++) CMP("coef", xrtm_get_coef(d, i, k, l), x->g[i][k][l]); }
  for (k = 0; k < c->nk; k++) { CMP("ampfac", xrtm_get_kernel_ampfac(d, k), x->amp[k]); for (l = 0; l < NP[c->kk[k]]; l++) CMP("params", xrtm_get_kernel_params(d, k, l), x->par[k][l]); } }
/* sets every perturbation through a random form of the setters, then reads everything back */
static void setp(c_t *c, xrtm_fd_data *f) { int i, j, k, l, m; double a[ML + 1][MD], b[ML + 1], *rows[ML + 1], dl[MD]; double ****G; double *cc[ME];
  double cf[ML][MD][ME][MC], *c3[ML][MD][ME], **c2[ML][MD], ***c1[ML];
  for (i = 0; i <= ML; i++) rows[i] = a[i];
  xrtm_fd_set_delta(f, c->delta);
#define SET1(name, F) do { if (R(2)) for (j = 0; j < c->nd; j++) xrtm_fd_set_##name##_p_1(f, j, c->p[j].F); else { for (j = 0; j < c->nd; j++) b[j] = c->p[j].F; xrtm_fd_set_##name##_p_n(f, b); } } while (0)
  SET1(F_iso_top, ft); SET1(F_iso_bot, fb);
  if (TH(c)) { SET1(surface_b, sb); if (R(2)) for (j = 0; j < c->nd; j++) xrtm_fd_set_levels_b_p_1(f, j, c->p[j].lb); else { for (i = 0; i <= c->nl; i++) for (j = 0; j < c->nd; j++) a[i][j] = c->p[j].lb[i]; xrtm_fd_set_levels_b_p_n(f, rows); } }
#define SET2(name, F) do { m = R(4); for (i = 0; i < c->nl; i++) for (j = 0; j < c->nd; j++) a[i][j] = c->p[j].F[i]; \
   if (m == 0) { for (i = 0; i < c->nl; i++) for (j = 0; j < c->nd; j++) xrtm_fd_set_##name##_p_11(f, i, j, a[i][j]); } else if (m == 1) { for (j = 0; j < c->nd; j++) xrtm_fd_set_##name##_p_n1(f, j, c->p[j].F); } \
   else if (m == 2) { for (i = 0; i < c->nl; i++) xrtm_fd_set_##name##_p_1n(f, i, a[i]); } else xrtm_fd_set_##name##_p_nn(f, rows); } while (0)
  SET2(omega, w); SET2(ltau, t);
  for (i = 0; i < ML; i++) { c1[i] = c2[i]; for (j = 0; j < MD; j++) { c2[i][j] = c3[i][j]; for (k = 0; k < ME; k++) { c3[i][j][k] = cf[i][j][k]; for (l = 0; l < MC; l++) cf[i][j][k][l] = c->p[j].g[i][k][l]; } } }
  m = R(4);
  if (m == 0) { for (i = 0; i < c->nl; i++) for (j = 0; j < c->nd; j++) xrtm_fd_set_coef_p_11(f, i, j, c2[i][j]); }
  else if (m == 1) for (j = 0; j < c->nd; j++) { double **t[ML]; for (i = 0; i < c->nl; i++) t[i] = c2[i][j]; xrtm_fd_set_coef_p_n1(f, j, t); }
  else if (m == 2) { for (i = 0; i < c->nl; i++) xrtm_fd_set_coef_p_1n(f, i, c1[i]); } else xrtm_fd_set_coef_p_nn(f, c1);
  for (k = 0; k < c->nk; k++) { double v[MD][4], *r[MD];
    if (R(2)) for (j = 0; j < c->nd; j++) xrtm_fd_set_kernel_ampfac_p_1(f, k, j, c->p[j].amp[k]); else { for (j = 0; j < c->nd; j++) b[j] = c->p[j].amp[k]; xrtm_fd_set_kernel_ampfac_p_n(f, k, b); }
    m = R(4); for (j = 0; j < c->nd; j++) { r[j] = v[j]; for (l = 0; l < 4; l++) v[j][l] = c->p[j].par[k][l]; }
    if (m == 0) { for (j = 0; j < c->nd; j++) for (l = 0; l < NP[c->kk[k]]; l++) xrtm_fd_set_kernel_params_p_11(f, k, j, l, v[j][l]); }
    else if (m == 1) { for (j = 0; j < c->nd; j++) xrtm_fd_set_kernel_params_p_1n(f, k, j, v[j]); }
    else if (m == 2) { for (l = 0; l < NP[c->kk[k]]; l++) { for (j = 0; j < c->nd; j++) b[j] = v[j][l]; xrtm_fd_set_kernel_params_p_n1(f, k, l, b); } }
    else xrtm_fd_set_kernel_params_p_nn(f, k, r); }
  /* read back */
#define EQ(n, a, b) do { if (!((a) == (b))) SAY("%s reads %.15g, was set to %.15g", n, (double) (a), (double) (b)); } while (0)
  xrtm_fd_get_delta(f, dl); EQ("n_derivs", xrtm_fd_get_n_derivs(f), c->nd);
  for (j = 0; j < c->nd; j++) { q_t *p = &c->p[j]; EQ("delta", dl[j], c->delta[j]); EQ("F_iso_top_p", xrtm_fd_get_F_iso_top_p(f, j), p->ft); EQ("F_iso_bot_p", xrtm_fd_get_F_iso_bot_p(f, j), p->fb);
    if (TH(c)) { EQ("surface_b_p", xrtm_fd_get_surface_b_p(f, j), p->sb); xrtm_fd_get_levels_b_p(f, j, b); for (i = 0; i <= c->nl; i++) EQ("levels_b_p", b[i], p->lb[i]); }
    for (i = 0; i < c->nl; i++) { EQ("omega_p", xrtm_fd_get_omega_p(f, i, j), p->w[i]); EQ("ltau_p", xrtm_fd_get_ltau_p(f, i, j), p->t[i]); for (k = 0; k < c->ne; k++) for (l = 0; l < c->ncl[i]; l++) EQ("coef_p", xrtm_fd_get_coef_p(f, i, j, k, l), p->g[i][k][l]); }
    for (k = 0; k < c->nk; k++) { EQ("ampfac_p", xrtm_fd_get_kernel_ampfac_p(f, k, j), p->amp[k]); for (l = 0; l < NP[c->kk[k]]; l++) EQ("params_p", xrtm_fd_get_kernel_params_p(f, k, j, l), p->par[k][l]); } }
  /* out of range calls are refused and change nothing (checked by the comparison of the derivatives) */
  if (xrtm_fd_set_omega_p_11(f, c->nl, 0, 9.) != XRTM_INT_ERROR || xrtm_fd_set_omega_p_11(f, 0, c->nd, 9.) != XRTM_INT_ERROR || xrtm_fd_set_F_iso_top_p_1(f, c->nd, 9.) != XRTM_INT_ERROR || xrtm_fd_get_ltau_p(f, c->nl, 0) != XRTM_DBL_ERROR || xrtm_fd_get_ltau_p(f, 0, c->nd) != XRTM_DBL_ERROR || xrtm_fd_get_coef_p(f, 0, 0, c->ne, 0) != XRTM_DBL_ERROR) SAY("an index outside the range is accepted"); (void) G; (void) cc; }
static void trial(void) {
  static c_t c; static r_t b, fp[MD], fm[MD], I; int i, j, k, l, m, n, q, r; xrtm_data d; xrtm_fd_data f; memset(&c, 0, sizeof c); memset(&f, 0, sizeof f);
  c.nl = 1 + R(ML - 1); c.nd = 1 + R(MD - 1); c.nk = R(3); c.ns = R(3) ? 1 : 3; c.ne = c.ns == 1 ? 1 : 6; c.nu = R(3) ? 0 : 2; c.nc = c.ns == 1 ? MC : 3; c.um[0] = 15.; c.um[1] = 50.; c.ph[0] = uni(0, 180); c.ph[1] = uni(0, 180);
  c.kk[0] = R(2) ? XRTM_KERNEL_LAMBERTIAN : XRTM_KERNEL_RAHMAN; c.kk[1] = R(2) ? XRTM_KERNEL_ROSS_THICK : XRTM_KERNEL_HAPKE; if (c.ns > 1) { c.kk[0] = XRTM_KERNEL_LAMBERTIAN; if (c.nk > 1) c.nk = 1; }
  j = R(4); c.opts = XRTM_OPTION_OUTPUT_AT_LEVELS | (j == 3 ? 0 : j == 2 ? XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_SOURCE_THERMAL : j ? XRTM_OPTION_SOURCE_SOLAR : XRTM_OPTION_SOURCE_THERMAL) | (R(2) ? XRTM_OPTION_DELTA_M : 0); if (j == 3) c.opts |= XRTM_OPTION_SOURCE_SOLAR;
  if (c.ns > 1) c.opts |= XRTM_OPTION_VECTOR | XRTM_OPTION_PHASE_MATRIX_GC; if (c.nu) c.opts |= R(2) ? XRTM_OPTION_SFI : 0;
  c.solver = R(2) ? XRTM_SOLVER_EIG_BVP : XRTM_SOLVER_EIG_ADD; c.th0 = uni(5, 70); c.F0 = uni(.5, 2);
  c.x.ft = R(2) ? uni(.1, .5) : 0; c.x.fb = c.nk ? 0 : R(2) ? uni(.1, .5) : 0; c.x.sb = uni(.5, 1);
  for (i = 0; i <= c.nl; i++) c.x.lb[i] = uni(.2, 1);
  for (i = 0; i < c.nl; i++) { c.x.w[i] = uni(.3, .9); c.x.t[i] = uni(.1, 1.5); c.ncl[i] = R(3) ? c.nc : c.nc - 1; for (l = 0; l < c.ncl[i]; l++) for (k = 0; k < c.ne; k++) c.x.g[i][k][l] = l ? (2*l+1)*pow(.5, l)*(k == 0 || k == 3 ? 1 : .3) : k == 0 ? 1 : k == 3 ? .8 : 0; }
  for (k = 0; k < c.nk; k++) { c.x.amp[k] = uni(.1, .3); for (l = 0; l < 4; l++) c.x.par[k][l] = uni(.2, .5); }
  for (j = 0; j < c.nd; j++) { q_t *p = &c.p[j]; int all = R(3) == 0, one = R(8); c.delta[j] = uni(.01, .05);
#define ON(w) (all || one == w)
    if (ON(0)) p->ft = uni(.01, .02); if (ON(1) && !c.nk) p->fb = uni(.01, .02); if (ON(2)) p->sb = uni(.01, .02);
    if (ON(3)) for (i = 0; i <= c.nl; i++) if (R(2)) p->lb[i] = uni(.01, .02);
    for (i = 0; i < c.nl; i++) { if (ON(4) && R(2)) p->w[i] = uni(.01, .02); if (ON(5) && R(2)) p->t[i] = uni(.01, .03); if (ON(6) && R(2)) for (l = 1; l < c.ncl[i]; l++) for (k = 0; k < c.ne; k++) p->g[i][k][l] = uni(-.02, .02); }
    for (k = 0; k < c.nk; k++) { if (ON(7)) p->amp[k] = uni(.01, .02); if (ON(7)) for (l = 0; l < NP[c.kk[k]]; l++) p->par[k][l] = uni(-.02, .02); } 
    if (!TH(&c)) { p->sb = 0; memset(p->lb, 0, sizeof p->lb); } }
  if (mk(&c, &d)) return;
  put(&c, &d, &c.x);
  if (xrtm_fd_create(&f, &d, c.nd)) { SAY("xrtm_fd_create() fails"); return; }
  setp(&c, &f);
  if (solve(&c, &c.x, &b)) goto end;
  for (j = 0; j < c.nd; j++) { q_t y; lin(&y, &c.x, 1., &c.p[j]); if (solve(&c, &y, &fp[j])) goto end; lin(&y, &c.x, -1., &c.p[j]); if (solve(&c, &y, &fm[j])) goto end; }
  for (m = 0; m < 3; m++) { static double v[2][2][MD][2][2][4], ****P[2][2], ***Q[2][2][MD], **S[2][2][MD][2], *T[2][2][MD][2][2]; double *pp[2] = { c.ph, c.ph }; (void) Q;
    for (q = 0; q < 2; q++) for (i = 0; i < 2; i++) { P[q][i] = Q[q][i]; for (j = 0; j < MD; j++) { Q[q][i][j] = S[q][i][j]; for (k = 0; k < 2; k++) { S[q][i][j][k] = T[q][i][j][k]; for (l = 0; l < 2; l++) T[q][i][j][k][l] = v[q][i][j][k][l]; } } }
    mkr(&I); memset(v, 0, sizeof v);
    if (xrtm_fd_radiance(&f, c.solver, m == 0 ? XRTM_FD_METHOD_FORWARD : m == 1 ? XRTM_FD_METHOD_BACKWARD : XRTM_FD_METHOD_CENTRAL, 2, pp, I.P[0], I.P[1], P[0], P[1])) { SAY("xrtm_fd_radiance() fails, method %d", m); goto end; }
    for (q = 0; q < 2; q++) for (i = 0; i < 2; i++) for (k = 0; k < 2; k++) for (l = 0; l < 2; l++) for (n = 0; n < c.ns; n++) { double a0 = b.v[q][i][k][l][n];
      if (!(fabs(I.v[q][i][k][l][n] - a0) <= 1e-9*(1e-2 + fabs(a0)))) { SAY("radiance %.12g instead of %.12g (method %d)", I.v[q][i][k][l][n], a0, m); goto end; }
      for (j = 0; j < c.nd; j++) { double w = m == 0 ? (fp[j].v[q][i][k][l][n] - a0) / c.delta[j] : m == 1 ? (a0 - fm[j].v[q][i][k][l][n]) / c.delta[j] : (fp[j].v[q][i][k][l][n] - fm[j].v[q][i][k][l][n]) / (2.*c.delta[j]), g = v[q][i][j][k][l][n];
        if (!(fabs(w - g) <= 1e-7*(1. + fabs(w)))) { SAY("method %d, derivative %d, %s level %d angle %d %d stokes %d: %.12g instead of %.12g (options %x, ft %g fb %g sb %g)", m, j, q ? "down" : "up", i, k, l, n, g, w, c.opts, c.p[j].ft, c.p[j].fb, c.p[j].sb); goto end; } } }
    readback(&c, &d); if (bad) goto end; }
end: for (r = 0; r < 0; r++); xrtm_fd_destroy(&f); xrtm_destroy(&d); }
int main(int ac, char **av) { long n = ac > 1 ? atol(av[1]) : 250; freopen("/dev/null", "w", stderr); for (trial_ = 0; trial_ < n && !bad; trial_++) { rs_ = 88172645463325252ULL + 7919ULL*trial_; for (int i = 0; i < 10; i++) rnd(); trial(); } return bad; }
