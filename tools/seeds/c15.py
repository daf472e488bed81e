COMMON = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "gutil.h"
#include "xrtm_interface.h"
#define N 4
static double lt[N] = {.2, .5, .1, .4}, z[N + 1] = {60., 30., 15., 14.5, 0.}, ltl[N] = {0., 1., 0., -.5}, pr = 6371., th = 70.;
static double I[2][8], J[2][8], M[4], NN[4], F[1], FL[1];
static int solve(xrtm_data *d, int solver) { static double *I3[2][8], **I2[2][8], ***I1[2], *J4[2][8], **J3[2][8], ***J2[2], ****J1[2], *Np[4], *Fp = FL; double ph[1] = {30.}, *pp[8] = {ph, ph, ph, ph, ph, ph, ph, ph}; int m, j;
  for (m = 0; m < 2; m++) { for (j = 0; j < 8; j++) { I3[m][j] = &I[m][j]; I2[m][j] = &I3[m][j]; J4[m][j] = &J[m][j]; J3[m][j] = &J4[m][j]; } I1[m] = I2[m]; J2[m] = J3[m]; J1[m] = &J2[m]; }
  for (m = 0; m < 4; m++) Np[m] = &NN[m];
  return xrtm_solution(d, solver, XRTM_OUTPUT_RADIANCE, 1, pp, &I1[0], &I1[1], &J1[0], &J1[1], &M[0], &M[1], &Np[0], &Np[1], &M[2], &M[3], &Np[2], &Np[3], F, &Fp); }
static int make(xrtm_data *d, int psa, int solver) { int i, l, lev[1] = {N}; double q[4], *cc[1] = {q};
  if (xrtm_create(d, XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_CALC_DERIVS | (psa ? XRTM_OPTION_PSA : 0), solver, 4, 2, 1, 1, N, 1, 0, 0, NULL, 1, 0)) exit(3);
  xrtm_set_fourier_tol(d, 0.); xrtm_set_out_levels(d, lev); xrtm_set_F_iso_top(d, 0.); xrtm_set_F_iso_bot(d, 0.); xrtm_set_F_0(d, 1.); xrtm_set_theta_0(d, th); xrtm_set_phi_0(d, 0.);
  if (psa) { xrtm_set_planet_r(d, pr); xrtm_set_levels_z(d, z); }
  for (i = 0; i < N; i++) { for (l = 0; l < 4; l++) q[l] = (2 * l + 1) * pow(.5, l); xrtm_set_coef_1(d, i, 4, cc); xrtm_set_omega_1(d, i, .7); xrtm_set_ltau_1(d, i, lt[i]); if (ltl[i] != 0.) xrtm_set_ltau_l_11(d, i, 0, ltl[i]); }
  xrtm_update_varied_layers(d); return 0; }
static double factor(int i, int j, int psa) { double r = pr + z[i + 1], c = cos(th * D2R), a = pr + z[j], b = pr + z[j + 1]; return psa ? (sqrt(r * r * c * c + a * a - r * r) - sqrt(r * r * c * c + b * b - r * r)) / (z[j] - z[j + 1]) : 1. / c; }
static int check(xrtm_data *d, int psa) { int i, j; double t[N + 1], tl[N + 1], s, sl; t[0] = tl[0] = 0.;
  for (i = 0; i < N; i++) { t[i + 1] = tl[i + 1] = 0.; for (j = 0; j <= i; j++) { t[i + 1] += lt[j] * factor(i, j, psa); tl[i + 1] += ltl[j] * factor(i, j, psa); } }
  for (i = 0; i < N; i++) { s = (t[i + 1] - t[i]) / lt[i]; sl = (tl[i + 1] - tl[i] - s * ltl[i]) / lt[i];
    if (fabs(d->btau[i + 1] - t[i + 1]) > 1e-7 || fabs(d->btau_l[i + 1][0] - tl[i + 1]) > 1e-7 || fabs(d->btran[i + 1] - exp(-t[i + 1])) > 1e-7 || fabs(d->btran_l[i + 1][0] + tl[i + 1] * exp(-t[i + 1])) > 1e-7) { printf("beam at level %d\n", i + 1); return 1; }
    if (fabs(d->as_0[i] - s) > 1e-6 || fabs(d->as_0_l[i][0] - sl) > 1e-6 || fabs(d->atran_l[i][0] + (tl[i + 1] - tl[i]) * exp(-(t[i + 1] - t[i]))) > 1e-6) { printf("beam in layer %d\n", i); return 1; } }
  return 0; }
'''
MODEL = 'src/xrtm_model.c'
SEEDS = [
 dict(id='c15-incremental-spherical', prop='C15', needs='a spherical atmosphere with an update of a layer below the top after a first solve',
      breaks='after an update of a lower layer the spherical optical depth continues from the level above with that layer\'s own path factor only',
      demo=COMMON + 'int main(void) { xrtm_data d; make(&d, 1, XRTM_SOLVER_EIG_ADD); if (solve(&d, XRTM_SOLVER_EIG_ADD) || check(&d, 1)) return 1; lt[2] = .3; xrtm_set_ltau_1(&d, 2, .3); if (solve(&d, XRTM_SOLVER_EIG_ADD) || check(&d, 1)) return 1; xrtm_destroy(&d); return 0; }\n',
      edits=[(MODEL, '''               btau[i] = 0;
               for (j = 0; j < i; ++j)
                    btau[i] += ltau[j] * d->chapman[i-1][j];''', '''               btau[i] = i == i_first && i > 1 ? btau[i-1] : 0;
               for (j = i == i_first && i > 1 ? i - 1 : 0; j < i; ++j)
                    btau[i] += ltau[j] * d->chapman[i-1][j];'''), (MODEL, '''     if (d->options & XRTM_OPTION_PSA)
          get_chapman(d, &chapman);

     for (     ; i <= i_level2; ++i) {
          dep_flags[i-1] &= (deps ^ DEP_MASK_MASK);

          update_opt_props''', '''     i_first = i;

     if (d->options & XRTM_OPTION_PSA)
          get_chapman(d, &chapman);

     for (     ; i <= i_level2; ++i) {
          dep_flags[i-1] &= (deps ^ DEP_MASK_MASK);

          update_opt_props'''), (MODEL, '''     int k;

     int i_level2;

     double **chapman;''', '''     int k;

     int i_first;
     int i_level2;

     double **chapman;''')]),
 dict(id='c15-secant-tangent', prop='C15', needs='spherical geometry with a derivative with respect to the thickness of a layer',
      breaks='the derivative of the average secant omits the change of the divisor in spherical geometry when the layer above is varied too',
      demo=COMMON + 'int main(void) { xrtm_data d; ltl[0] = .7; make(&d, 1, XRTM_SOLVER_EIG_BVP); if (solve(&d, XRTM_SOLVER_EIG_BVP) || check(&d, 1)) return 1; xrtm_destroy(&d); return 0; }\n',
      edits=[(MODEL, '''                                      as_0[i-1] * ltau_l[i-1][j]) / ltau[i-1];

                    atran_l[i-1][j] = -(ltau_l[i-1][j] * as_0[i-1] +
                                        ltau[i-1] * as_0_l[i-1][j]) * atran[i-1];
               }
          }
     }
}
}''', '''                                      as_0[i-1] * (btau_l[i-1][j] != 0. && d->options & XRTM_OPTION_PSA ? d->mu_0 * btau_l[i][j] - d->mu_0 * btau_l[i-1][j] : ltau_l[i-1][j])) / ltau[i-1];

                    atran_l[i-1][j] = -(ltau_l[i-1][j] * as_0[i-1] +
                                        ltau[i-1] * as_0_l[i-1][j]) * atran[i-1];
               }
          }
     }
}
}''')]),
 dict(id='c15-thin-layer-factor', prop='C15', needs='a layer thinner than one height unit below a thicker one',
      breaks='a thin layer is given the path factor of the layer above',
      demo=COMMON + 'int main(void) { xrtm_data d; make(&d, 1, XRTM_SOLVER_EIG_ADD); if (solve(&d, XRTM_SOLVER_EIG_ADD) || check(&d, 1)) return 1; xrtm_destroy(&d); return 0; }\n',
      edits=[('src/xrtm_utility.c', '               if (r1 == r2)\n', '               if (j > 0 && fabs(r1 - r2) < 1.e-4 * r1)\n')]),
 dict(id='c15-grazing-level', prop='C15', needs='spherical geometry and a sun near the horizon',
      breaks='the impact radius is taken from the top of the layer instead of the level the beam arrives at, for a low sun',
      demo=COMMON + 'int main(void) { xrtm_data d; th = 79.; make(&d, 1, XRTM_SOLVER_EIG_ADD); if (solve(&d, XRTM_SOLVER_EIG_ADD) || check(&d, 1)) return 1; xrtm_destroy(&d); return 0; }\n',
      edits=[('src/xrtm_utility.c', '          b = z0 + z[i+1];\n', '          b = z0 + (mu_0 > .2 || z[i] - z[i+1] > 20. ? z[i+1] : z[i]);\n')]),
 dict(id='c15-plane-derivative-reach', prop='C15', needs='plane-parallel geometry; a derivative with respect to an upper layer and another one below an unvaried layer',
      breaks='the derivative of the optical depth is not carried through layers that do not vary',
      demo=COMMON + 'int main(void) { xrtm_data d; make(&d, 0, XRTM_SOLVER_EIG_ADD); if (solve(&d, XRTM_SOLVER_EIG_ADD) || check(&d, 0)) return 1; xrtm_destroy(&d); return 0; }\n',
      edits=[(MODEL, '''                         btau_l[i][j] = btau_l[i-1][j] +
                                        ltau_l[i-1][j] / d->mu_0;''', '''                         btau_l[i][j] = (i > 2 && ltau_l[i-1][j] != 0. && ltau_l[i-2][j] == 0. && ltau_l[0][j] == 0. ? 0. : btau_l[i-1][j]) +
                                        ltau_l[i-1][j] / d->mu_0;''')]),
]
