/* the optical depth along the solar beam of the real solvers against rays traced through the layers, and central differences of them, after random sequences of updates */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "gutil.h"
#include "xrtm_interface.h"
#define NL 9
#define ND 3
#define MC 4
static unsigned long long rs_ = 88172645463325252ULL;
static double U_(double a, double b) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return a + (b - a) * ((rs_ >> 20) % 1000000) / 1e6; }
static int nl, psa; static double lt[NL], ltl[NL][ND], z[NL + 1], pr, th;
/* 0: btau, 1: btran (levels), 2: as_0, 3: atran (layers); by following the ray from each level to the sun */
static double path(int i, int j) { double r = pr + z[i + 1], c = cos(th * D2R), a = pr + z[j], b = pr + z[j + 1]; if (! psa) return 1. / c;
  return (sqrt(r * r * c * c + (a * a - r * r)) - sqrt(r * r * c * c + (b * b - r * r))) / (z[j] - z[j + 1]); }
static void beam(const double *x, double o[4][NL + 1]) { int i, j; o[0][0] = 0.; o[1][0] = 1.; for (i = 0; i < nl; i++) { o[0][i + 1] = 0.; for (j = 0; j <= i; j++) o[0][i + 1] += x[j] * path(i, j);
  o[1][i + 1] = exp(-o[0][i + 1]); o[2][i] = (o[0][i + 1] - o[0][i]) / x[i]; o[3][i] = exp(-(o[0][i + 1] - o[0][i])); } }
static int off(double a, double b, double t) { return ! (fabs(a - b) <= t * (1 + fabs(b))); }
static int check(xrtm_data *d, int nd, const char *after) { static const char *WHAT[] = {"optical depth along the beam", "transmittance of the beam", "average secant", "transmittance of a layer"};
  double o[4][NL + 1], p[4][NL + 1], m[4][NL + 1], *v[4] = { d->btau, d->btran, d->as_0, d->atran }, **vl[4] = { d->btau_l, d->btran_l, d->as_0_l, d->atran_l }, x[NL]; int i, k, l; beam(lt, o);
  for (k = 0; k < 4; k++) for (i = 0; i < nl + (k < 2); i++) if (off(v[k][i], o[k][i], 1e-7)) { printf("%s at %s %d of %d after %s (%s): %.12g, traced %.12g\n", WHAT[k], k < 2 ? "level" : "layer", i, nl, after, psa ? "spherical" : "plane parallel", v[k][i], o[k][i]); return 1; }
  for (l = 0; l < nd; l++) { double h = 1e-5; for (i = 0; i < nl; i++) x[i] = lt[i] + h * ltl[i][l]; beam(x, p); for (i = 0; i < nl; i++) x[i] = lt[i] - h * ltl[i][l]; beam(x, m);
    for (k = 0; k < 4; k++) for (i = 0; i < nl + (k < 2); i++) if (off(vl[k][i][l], (p[k][i] - m[k][i]) / (2 * h), 1e-5)) { printf("derivative %d of the %s at %s %d of %d after %s (%s): %.12g, central difference %.12g\n", l, WHAT[k], k < 2 ? "level" : "layer", i, nl, after, psa ? "spherical" : "plane parallel", vl[k][i][l], (p[k][i] - m[k][i]) / (2 * h)); return 1; } }
  return 0; }
static int solve(xrtm_data *d, int solver, int nd) { static double I[2][8], J[2][ND][8], M[4], N[4][ND], FD[1], FL[ND]; static double *I3[2][8], **I2[2][8], ***I1[2], *J4[2][ND][8], **J3[2][ND][8], ***J2[2][ND], ****J1[2]; double ph[1] = { 30. }, *pp[8] = { ph, ph, ph, ph, ph, ph, ph, ph }, *Np[4], *Fp = FL; int m, j, l;
  for (m = 0; m < 2; m++) { for (j = 0; j < 8; j++) { I3[m][j] = &I[m][j]; I2[m][j] = &I3[m][j]; } I1[m] = I2[m]; J1[m] = J2[m]; for (l = 0; l < ND; l++) { J2[m][l] = J3[m][l]; for (j = 0; j < 8; j++) { J4[m][l][j] = &J[m][l][j]; J3[m][l][j] = &J4[m][l][j]; } } }
  for (m = 0; m < 4; m++) Np[m] = N[m]; static double **** Ip[2], ***** Jp[2];
  return xrtm_solution(d, solver, XRTM_OUTPUT_RADIANCE, 1, pp, &I1[0], &I1[1], nd ? &J1[0] : NULL, nd ? &J1[1] : NULL, &M[0], &M[1], nd ? &Np[0] : NULL, nd ? &Np[1] : NULL, &M[2], &M[3], nd ? &Np[2] : NULL, nd ? &Np[3] : NULL, FD, nd ? &Fp : NULL); }
static void heights(void) { int i; z[nl] = U_(0., .5); for (i = nl - 1; i >= 0; i--) z[i] = z[i + 1] + U_(.3, 9.); }
static int one(int it) { xrtm_data d; int i, l, n, nd = it % 3 == 2 ? 0 : ND, lev[1], solver = it & 4 ? XRTM_SOLVER_EIG_BVP : XRTM_SOLVER_EIG_ADD; static const char *W[] = {"the first solve", "a change of one thickness", "a change of one derivative", "a change of the sun angle", "a change of all heights", "a change of the radius", "a change of an albedo"}; double q[MC], *cc[1] = { q };
  psa = it & 1; nl = 1 + it % NL; th = it % 4 == 3 ? U_(75., 86.) : U_(0., 78.); pr = U_(2000., 7000.); heights();
  if (xrtm_create(&d, XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | (psa ? XRTM_OPTION_PSA : 0) | (nd ? XRTM_OPTION_CALC_DERIVS : 0), solver, MC, 2, 1, nd, nl, 1, 0, 0, NULL, 1, 0)) return 0;
  lev[0] = nl; xrtm_set_fourier_tol(&d, 0.); xrtm_set_out_levels(&d, lev); xrtm_set_F_iso_top(&d, 0.); xrtm_set_F_iso_bot(&d, 0.); xrtm_set_F_0(&d, 1.); xrtm_set_theta_0(&d, th); xrtm_set_phi_0(&d, 0.);
  if (psa) { xrtm_set_planet_r(&d, pr); xrtm_set_levels_z(&d, z); }
  for (i = 0; i < nl; i++) { for (l = 0; l < MC; l++) q[l] = (2 * l + 1) * pow(.5, l); lt[i] = U_(.02, .6); xrtm_set_coef_1(&d, i, MC, cc); xrtm_set_omega_1(&d, i, U_(.3, .9)); xrtm_set_ltau_1(&d, i, lt[i]); for (l = 0; l < nd; l++) { ltl[i][l] = (it + i + l) % 3 ? U_(-1., 1.) : 0.; if (ltl[i][l] != 0.) xrtm_set_ltau_l_11(&d, i, l, ltl[i][l]); } }
  if (nd) xrtm_update_varied_layers(&d);
  for (n = 0; n < 8; n++) { int w = n == 0 ? 0 : n == 1 ? 1 : 1 + (int) U_(0., 5.999); i = (int) U_(0., nl - .001); l = (int) U_(0., ND - .001); if ((w == 2 && ! nd) || ((w == 4 || w == 5) && ! psa)) w = 1;
    if (w == 1) xrtm_set_ltau_1(&d, i, lt[i] = U_(.02, .6)); if (w == 2) xrtm_set_ltau_l_11(&d, i, l, ltl[i][l] = U_(-1., 1.)); if (w == 3) xrtm_set_theta_0(&d, th = U_(0., 78.)); if (w == 4) { heights(); xrtm_set_levels_z(&d, z); } if (w == 5) xrtm_set_planet_r(&d, pr = U_(2000., 7000.)); if (w == 6) xrtm_set_omega_1(&d, i, U_(.3, .9));
    if (w == 2) xrtm_update_varied_layers(&d);
    if (solve(&d, solver, nd)) return 0; if (check(&d, nd, W[w])) return 1; }
  xrtm_destroy(&d); return 0; }
int main(void) { int it; if (! getenv("TELL") && ! freopen("/dev/null", "w", stderr)) return 0; for (it = 0; it < 108; it++) if (one(it)) return 1; return 0; }
