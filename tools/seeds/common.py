I = 'src/xrtm_interface.c'
HDR = r'''
#include <stdio.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
#define BASE (XRTM_OPTION_FOUR_CONV_NEW | XRTM_OPTION_PART_SOL_CLASSICAL | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT | XRTM_OPTION_SOURCE_SOLAR)
'''
# full model: NL layers, ND derivatives
MODEL = HDR + r'''
#define NL 3
#define NC 9
#define ND 2
typedef struct { double omega[NL], ltau[NL], ol[NL][ND], ll[NL][ND], coef[NL][NC], cl[NL][ND][NC], th0, ot[1], z[NL+1], pr, alb, albl[ND], taus[2], F0, b[NL+1], sb, ftop; int lev[2]; } in_t;
static void fill(in_t *s) { int i, j, k; for (i = 0; i < NL; i++) { s->omega[i] = .8-.1*i; s->ltau[i] = .2+.1*i; for (j = 0; j < NC; j++) s->coef[i][j] = (2*j+1)*pow(.5+.1*i, j);
  for (k = 0; k < ND; k++) { s->ol[i][k] = .1*(i+k); s->ll[i][k] = .3+.1*k; for (j = 0; j < NC; j++) s->cl[i][k][j] = j ? .05*(k+1)*(i+1) : 0; } }
  s->th0 = 35.; s->ot[0] = 20.; s->pr = 6371.; for (i = 0; i <= NL; i++) { s->z[i] = 30-8*i; s->b[i] = .1*i; } s->sb = .3; s->ftop = 0; s->alb = .2; s->albl[0] = .5; s->albl[1] = .1; s->taus[0] = .01; s->taus[1] = .15; s->lev[0] = 0; s->lev[1] = NL; s->F0 = 1.; }
static int OPT, SOLVER, NDV, NU; static xrtm_data *NOUPD;
#define C(x) do { if (x) { printf("%s failed\n", #x); exit(9); } } while (0)
static void put(xrtm_data *d, in_t *s) { int i, k; double *p[1], *q[ND][1], **qq[ND];
  for (i = 0; i < NL; i++) { C(xrtm_set_omega_1(d, i, s->omega[i])); C(xrtm_set_ltau_1(d, i, s->ltau[i])); p[0] = s->coef[i]; C(xrtm_set_coef_1(d, i, NC, p));
    if (NDV) { C(xrtm_set_omega_l_1n(d, i, s->ol[i])); C(xrtm_set_ltau_l_1n(d, i, s->ll[i])); for (k = 0; k < ND; k++) { q[k][0] = s->cl[i][k]; qq[k] = q[k]; } C(xrtm_set_coef_l_1n(d, i, qq)); } }
  C(xrtm_set_theta_0(d, s->th0)); C(xrtm_set_phi_0(d, 0)); C(xrtm_set_F_0(d, s->F0)); if (NU) C(xrtm_set_out_thetas(d, s->ot));
  if (OPT & XRTM_OPTION_PSA) { C(xrtm_set_planet_r(d, s->pr)); C(xrtm_set_levels_z(d, s->z)); }
  if (OPT & XRTM_OPTION_OUTPUT_AT_TAUS) C(xrtm_set_out_taus(d, s->taus)); else C(xrtm_set_out_levels(d, s->lev));
  C(xrtm_set_kernel_ampfac(d, 0, s->alb)); if (NDV) C(xrtm_set_kernel_ampfac_l_n(d, 0, s->albl));
  C(xrtm_set_F_iso_top(d, s->ftop)); C(xrtm_set_F_iso_bot(d, 0.)); C(xrtm_set_fourier_tol(d, 1e-9));
  if (OPT & XRTM_OPTION_SOURCE_THERMAL) { C(xrtm_set_lambda(d, 1.)); C(xrtm_set_levels_b(d, s->b)); C(xrtm_set_surface_b(d, s->sb)); }
  if (SOLVER == XRTM_SOLVER_DOUB_ADD) C(xrtm_set_doub_d_tau(d, 1e-6)); if (SOLVER == XRTM_SOLVER_PADE_ADD) C(xrtm_set_pade_params(d, 0, 4)); }
static int solve(xrtm_data *d, double *o) { int n = 0, i, k; double phi[1] = {30.}; double *phis[4] = {phi, phi, phi, phi}; int nu = NU ? NU : d->n_quad;
  double ****Ip = alloc_array4_d(2, nu, 1, 1), ****Im = alloc_array4_d(2, nu, 1, 1), *****Ipl = alloc_array5_d(2, ND, nu, 1, 1), *****Iml = alloc_array5_d(2, ND, nu, 1, 1);
  double m[2]; double **ml = alloc_array2_d(2, ND); init_array4_d(Ip, 2, nu, 1, 1, 0.); init_array4_d(Im, 2, nu, 1, 1, 0.); init_array5_d(Ipl, 2, ND, nu, 1, 1, 0.); init_array5_d(Iml, 2, ND, nu, 1, 1, 0.);
  if (NDV && d != NOUPD) C(xrtm_update_varied_layers(d));
  C(xrtm_solution(d, SOLVER, XRTM_OUTPUT_RADIANCE, 1, phis, Ip, Im, Ipl, Iml, m, m, ml, ml, m, m, ml, ml, m, ml));
  for (i = 0; i < 2*nu; i++) { o[n++] = Ip[0][0][0][i]; o[n++] = Im[0][0][0][i]; } for (i = 0; i < 2; i++) for (k = 0; k < NDV; k++) { o[n++] = Ipl[i][k][0][0][0]; o[n++] = Iml[i][k][0][0][0]; } return n; }
static void mk(xrtm_data *d) { enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; C(xrtm_create(d, OPT, SOLVER, NC, 2, 1, NDV, NL, 1, 1, 8, K, 2, NU)); }
static int same(const char *w, xrtm_data *d, in_t *s) { double a[200], b[200]; xrtm_data e; int n, i, r = 0; n = solve(d, a); mk(&e); put(&e, s); solve(&e, b);
  for (i = 0; i < n; i++) if (!(fabs(a[i]-b[i]) <= 1e-9*(1e-2+fabs(b[i])))) { printf("%s: result %d is %.12g, fresh handle %.12g\n", w, i, a[i], b[i]); r = 1; break; } xrtm_destroy(&e); return r; }
'''
