/* Derivatives of the real solvers against central differences of the real solvers.  One configuration and one set of inputs per trial,
   derived from a seed; every l-input of a derivative is a random direction (zero for inputs outside the trial's activity pattern). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include "gutil.h"
#include "xrtm_interface.h"
#define ML 4
#define MD 3
#define MC 4
static unsigned long long rs_;
static void seed(int s) { rs_ = 88172645463325252ULL + 7919ULL * s; }
static unsigned rnd(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return (unsigned) (rs_ >> 20); }
static double uni(double a, double b) { return a + (b - a) * (rnd() % 100000) / 100000.; }
typedef struct { int nl, nd, nk, opts, solver, sol, nout; int lev[3]; double th0, phi0, phi, F0, ft, fb, sb, lb[ML + 1], w[ML], t[ML], g[ML][MC], amp, z[ML + 1];
                 double ftl[MD], fbl[MD], sbl[MD], lbl[MD][ML + 1], wl[MD][ML], tl[MD][ML], gl[MD][ML][MC], ampl[MD]; } in_t;
static enum xrtm_kernel_type KK[1] = { XRTM_KERNEL_LAMBERTIAN };
#define NR 64
#define AL(p, n, s) p = calloc(n, sizeof(*(p)))
/* v: results; vl[d]: derivatives */
static int run(const in_t *c, int withl, int ii, double eps, double *v, double (*vl)[NR], int *nv) {
  xrtm_data d; int i, j, k, l, m = 0; int nd = withl ? c->nd : 0; in_t e = *c;
  if (!withl && eps != 0.) { e.ft += eps * c->ftl[ii]; e.fb += eps * c->fbl[ii]; e.sb += eps * c->sbl[ii]; e.amp += eps * c->ampl[ii];
     for (i = 0; i <= c->nl; i++) e.lb[i] += eps * c->lbl[ii][i];
     for (i = 0; i < c->nl; i++) { e.w[i] += eps * c->wl[ii][i]; e.t[i] += eps * c->tl[ii][i]; for (k = 0; k < MC; k++) e.g[i][k] += eps * c->gl[ii][i][k]; } }
  int opts = c->opts | XRTM_OPTION_OUTPUT_AT_LEVELS; if (nd) opts |= XRTM_OPTION_CALC_DERIVS; else opts &= ~XRTM_OPTION_STACK_REUSE_ADDING;
  int nq = c->solver == XRTM_SOLVER_TWO_STREAM ? 1 : c->solver == XRTM_SOLVER_FOUR_STREAM ? 2 : 3;
  if (xrtm_create(&d, opts, c->solver, MC, nq, 1, nd, c->nl, 1, c->nk, 3, KK, c->nout, 0)) return 1;
  if (c->solver & XRTM_SOLVER_DOUB_ADD) xrtm_set_doub_d_tau(&d, 1e-5);
  if (c->solver & XRTM_SOLVER_PADE_ADD) xrtm_set_pade_params(&d, -1, 4);
  if (c->solver & XRTM_SOLVER_SOS) xrtm_set_sos_params(&d, 30, 10., 1e-12);
  xrtm_set_fourier_tol(&d, 0.); xrtm_set_out_levels(&d, e.lev); xrtm_set_F_iso_top(&d, e.ft); xrtm_set_F_iso_bot(&d, e.fb);
  if (opts & XRTM_OPTION_SOURCE_SOLAR) { xrtm_set_F_0(&d, e.F0); xrtm_set_theta_0(&d, e.th0); xrtm_set_phi_0(&d, e.phi0); }
  if (opts & XRTM_OPTION_SOURCE_THERMAL) { xrtm_set_levels_b(&d, e.lb); xrtm_set_surface_b(&d, e.sb); }
  if (opts & XRTM_OPTION_PSA) { xrtm_set_planet_r(&d, 6371.); xrtm_set_levels_z(&d, e.z); }
  if (c->nk) xrtm_set_kernel_ampfac(&d, 0, e.amp);
  for (i = 0; i < c->nl; i++) { double *cc[1] = { e.g[i] }; xrtm_set_coef_1(&d, i, MC, cc); xrtm_set_omega_1(&d, i, e.w[i]); xrtm_set_ltau_1(&d, i, e.t[i]); }
  for (l = 0; l < nd; l++) { 
     xrtm_set_F_iso_top_l_1(&d, l, c->ftl[l]); xrtm_set_F_iso_bot_l_1(&d, l, c->fbl[l]);
     if (opts & XRTM_OPTION_SOURCE_THERMAL) { xrtm_set_levels_b_l_1(&d, l, (double *) c->lbl[l]); xrtm_set_surface_b_l_1(&d, l, c->sbl[l]); }
     if (c->nk) xrtm_set_kernel_ampfac_l_1(&d, 0, l, c->ampl[l]);
     for (i = 0; i < c->nl; i++) { double *cc[1] = { (double *) c->gl[l][i] }; int nz = 0; for (k = 0; k < MC; k++) if (c->gl[l][i][k] != 0.) nz = 1;
       if (nz) xrtm_set_coef_l_11(&d, i, l, cc); if (c->wl[l][i] != 0.) xrtm_set_omega_l_11(&d, i, l, c->wl[l][i]); if (c->tl[l][i] != 0.) xrtm_set_ltau_l_11(&d, i, l, c->tl[l][i]); } }
  if (nd) xrtm_update_varied_layers(&d);
  static double I[2][3][3][1][4], J[2][3][MD][3][1][4], M[2][2][3], N[2][2][3][MD], FD[3], FDL[3][MD]; memset(I, 0, sizeof I); memset(J, 0, sizeof J); memset(M, 0, sizeof M); memset(N, 0, sizeof N); memset(FD, 0, sizeof FD); memset(FDL, 0, sizeof FDL);
  static double ***Ip[2][3], **I1[2][3][3], *I2[2][3][3][1]; static double ****Jp[2][3], ***J1[2][3][MD], **J2[2][3][MD][3], *J3[2][3][MD][3][1]; static double *Np[2][2][3], *FLp[3];
  double ph[1], *pp[3] = { ph, ph, ph }; ph[0] = c->phi;
  for (m = 0; m < 2; m++) for (i = 0; i < 3; i++) { Ip[m][i] = I1[m][i]; Jp[m][i] = J1[m][i]; for (j = 0; j < 3; j++) { I1[m][i][j] = I2[m][i][j]; I2[m][i][j][0] = I[m][i][j][0]; }
     for (l = 0; l < MD; l++) { J1[m][i][l] = J2[m][i][l]; for (j = 0; j < 3; j++) { J2[m][i][l][j] = J3[m][i][l][j]; J3[m][i][l][j][0] = J[m][i][l][j][0]; } }
     for (k = 0; k < 2; k++) Np[k][m][i] = N[k][m][i]; FLp[i] = FDL[i]; }
  if (xrtm_solution(&d, c->solver, c->sol, 1, pp, Ip[0], Ip[1], nd ? Jp[0] : NULL, nd ? Jp[1] : NULL, M[0][0], M[0][1], nd ? Np[0][0] : NULL, nd ? Np[0][1] : NULL, M[1][0], M[1][1], nd ? Np[1][0] : NULL, nd ? Np[1][1] : NULL, FD, nd ? FLp : NULL)) { xrtm_destroy(&d); return 2; }
  *nv = 0;
#define PUT(x, y) do { v[*nv] = x; for (l = 0; l < nd; l++) vl[l][*nv] = y; (*nv)++; } while (0)
  for (m = 0; m < 2; m++) for (i = 0; i < c->nout; i++) for (j = 0; j < 3; j++) PUT(I[m][i][j][0][0], J[m][i][l][j][0][0]);
  for (k = 0; k < 2; k++) for (m = 0; m < 2; m++) for (i = 0; i < c->nout; i++) PUT(M[k][m][i], N[k][m][i][l]);
  for (i = 0; i < c->nout; i++) PUT(FD[i], FDL[i][l]);
  xrtm_destroy(&d); return 0; }
static double sparse(double a, double b, int p) { return (int) (rnd() % 100) < p ? uni(a, b) : 0.; }
/* a trial with the given options; 0 = agrees or not applicable, 1 = wrong */
static int trial(int s, int opts, int solver, int sol, int nout, int verbose) {
  in_t c; int i, l, k, nv; double v[NR], a[NR], b[NR], vl[MD][NR], un[MD][NR]; memset(&c, 0, sizeof c); seed(s);
  for (i = 0; i < 10; i++) rnd();
  c.nl = 1 + rnd() % ML; c.nd = 1 + rnd() % MD; c.opts = opts; c.solver = solver; c.sol = sol; c.nout = nout; c.nk = rnd() % 4 != 0;
  c.lev[0] = 0; c.lev[1] = c.nl; if (nout == 3) { if (c.nl < 2) c.nl = 2; c.lev[1] = 1 + rnd() % (c.nl - 1); c.lev[2] = c.nl; } else if (nout == 1) c.lev[0] = 0;
  c.th0 = uni(10., 70.); c.phi0 = 20.; c.phi = uni(0., 180.); c.F0 = uni(.5, 2.); c.ft = rnd() % 2 ? uni(0., 1.) : 0.; c.fb = rnd() % 2 && !c.nk ? uni(0., 1.) : 0.; c.sb = uni(.5, 2.); c.amp = uni(.1, .5);
  if (!(opts & (XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_SOURCE_THERMAL))) c.ft = uni(.5, 1.);
  for (i = 0; i <= c.nl; i++) { c.lb[i] = uni(.5, 3.); c.z[i] = 10. * (c.nl - i) + uni(0., 3.); }
  for (i = 0; i < c.nl; i++) { c.w[i] = uni(.3, .9); c.t[i] = uni(.1, 1.5); double g = uni(.1, .7); for (k = 0; k < MC; k++) c.g[i][k] = (2 * k + 1) * pow(g, k); }
  for (l = 0; l < c.nd; l++) { int pat = rnd() % 6, one = rnd() % c.nl, solar = opts & XRTM_OPTION_SOURCE_SOLAR, th = opts & XRTM_OPTION_SOURCE_THERMAL, q = rnd() % 3;
     for (i = 0; i < c.nl; i++) { int on = pat == 0 ? 1 : pat == 1 ? i == one : pat == 2 ? (int) (rnd() % 2) : pat == 3 ? i <= one : 0;
       if (on) { if (q != 1) c.wl[l][i] = sparse(-.5, .5, 70); if (q != 2) c.tl[l][i] = sparse(-.5, .5, 70); if (rnd() % 2) for (k = 1; k < MC; k++) c.gl[l][i][k] = uni(-.3, .3); } }
     if (th && (pat == 4 || rnd() % 3 == 0)) for (i = 0; i <= c.nl; i++) c.lbl[l][i] = rnd() % 2 ? sparse(-1., 1., 60) : (i == one);
     if (th) c.sbl[l] = sparse(-1., 1., 40); if (c.nk) c.ampl[l] = sparse(-.5, .5, 40); if (c.ft > .01) c.ftl[l] = sparse(-.5, .5, 30); if (c.fb > .01) c.fbl[l] = sparse(-.5, .5, 30); }
  int r = run(&c, 1, 0, 0., v, vl, &nv); if (r) { if (verbose) printf("   seed %d: rc %d\n", s, r); return 0; }
  double h = 1e-4; int bad = 0;
  if (run(&c, 0, 0, 0., a, un, &nv)) return 0;
  for (i = 0; i < nv; i++) if (fabs(a[i] - v[i]) > 1e-7 * (fabs(a[i]) + 1e-3)) { if (!bad++) printf("seed %d options %x solver %x: result %d is %.10g with derivatives and %.10g without\n", s, opts, solver, i, v[i], a[i]); }
  for (l = 0; l < c.nd && !bad; l++) { int n2;
     if (run(&c, 0, l, h, a, un, &n2) || run(&c, 0, l, -h, b, un, &n2)) return 0;
     for (i = 0; i < nv; i++) { double fd = (a[i] - b[i]) / (2 * h); if (!(fabs(fd - vl[l][i]) <= 2e-4 * (fabs(fd) + fabs(v[i]) + 1e-2))) { if (!bad++) { printf("seed %d options %x solver %x layers %d: derivative %d of result %d is %.8g, central difference %.8g", s, opts, solver, c.nl, l, i, vl[l][i], fd);
        printf("  [w_l"); for (k = 0; k < c.nl; k++) printf(" %.2g", c.wl[l][k]); printf("; tau_l"); for (k = 0; k < c.nl; k++) printf(" %.2g", c.tl[l][k]); printf("; b_l"); for (k = 0; k <= c.nl; k++) printf(" %.2g", c.lbl[l][k]); printf("; amp_l %.2g top_l %.2g bot_l %.2g]\n", c.ampl[l], c.ftl[l], c.fbl[l]); } } } }
  return bad != 0; }
static int forked(int s, int opts, int solver, int sol, int nout, int verbose) { int st; pid_t p; fflush(stdout); p = fork(); if (!p) { alarm(20); if (!verbose) fclose(stderr); int r = trial(s, opts, solver, sol, nout, verbose); fflush(stdout); _exit(r); } waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) return 0; printf("seed %d options %x solver %x: killed by signal %d\n", s, opts, solver, WTERMSIG(st)); return 1; }
  return WEXITSTATUS(st) == 1; }
