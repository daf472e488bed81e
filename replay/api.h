/* a shadow copy of the inputs of a handle, random valid and invalid calls on it, and the comparison of everything that can be read back */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
#include <xrtm_brdf.h>
#define NL 3
#define ND 3
#define NC 6
#define NK 2
#define MP 4
#define MV 3
#define NTH 2
int xrtm_get_levels_b_l(xrtm_data *, int, double *);
static unsigned long SEED = 88172645463325252UL;
static int R(int n) { SEED = SEED * 6364136223846793005UL + 1442695040888963407UL; return (int) ((SEED >> 33) % n); }
static double V(void) { return (1 + R(100000)) / 100003.; }
static int EXTRA = 0, FORCE = -1, OPT, SOLVER, STOKES, NE, NDD, NU, NV;
#ifndef KERNELS
#define KERNELS XRTM_KERNEL_LI_DENSE, XRTM_KERNEL_RAHMAN
#endif
#ifndef TAU
#define TAU 1.
#endif
#ifndef FTOL
#define FTOL 1.
#endif
#ifndef COEF
#define COEF(k, l) V()
#endif
static enum xrtm_kernel_type KT[NK] = {KERNELS};
#define BASE (XRTM_OPTION_FOUR_CONV_NEW | XRTM_OPTION_PART_SOL_CLASSICAL | XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT)
enum { s_doub, s_pade, s_sos, s_four, s_lambda, s_pr, s_z, s_lev, s_taus, s_oth, s_ft, s_fb, s_F0, s_th, s_phi, s_b, s_sb, n_s };
typedef struct { int set[n_s], sg[NL], sc[NL], so[NL], st[NL], ska[NK], skp[NK][MP];
     double doub, four, lambda, pr, ft, fb, F0, th, phi, sb, sostau, sostol; int pade_s, pade_r, sosmax;
     double z[NL+1], taus[MV], oth[NTH], b[NL+1], bl[NL+1][ND], ftl[ND], fbl[ND], sbl[ND]; int lev[MV], ncl[NL];
     double g[NL], gl[NL][ND], om[NL], oml[NL][ND], lt[NL], ltl[NL][ND], co[NL][6][NC], col[NL][ND][6][NC], ka[NK], kal[NK][ND], kp[NK][MP], kpl[NK][ND][MP]; } sh_t;
static int has(int o) { return (OPT & o) != 0; }
static int sol(int s) { return (SOLVER & s) != 0; }
#define CMP(what, got, want, i, j) do { double g_ = (got), w_ = (want); if (!(fabs(g_ - w_) <= 1e-12 * (1 + fabs(w_)))) { printf("%s[%d][%d] reads %.17g, expected %.17g\n", what, i, j, g_, w_); return 1; } } while (0)
static int cmp(xrtm_data *d, sh_t *s) { int i, j, k, l, ti[8]; double t[32], t2, t3;
     if (s->set[s_doub]) CMP("doub_d_tau", xrtm_get_doub_d_tau(d), s->doub, 0, 0);
     if (s->set[s_pade]) { xrtm_get_pade_params(d, &ti[0], &ti[1]); CMP("pade_s", ti[0], s->pade_s, 0, 0); CMP("pade_r", ti[1], s->pade_r, 0, 0); }
     if (s->set[s_sos]) { xrtm_get_sos_params(d, &ti[0], &t2, &t3); CMP("sos_max_os", ti[0], s->sosmax, 0, 0); CMP("sos_max_tau", t2, s->sostau, 0, 0); CMP("sos_tol", t3, s->sostol, 0, 0); }
     if (s->set[s_four]) CMP("fourier_tol", xrtm_get_fourier_tol(d), s->four, 0, 0);
     if (s->set[s_lambda]) CMP("lambda", xrtm_get_lambda(d), s->lambda, 0, 0);
     if (s->set[s_pr]) CMP("planet_r", xrtm_get_planet_r(d), s->pr, 0, 0);
     if (s->set[s_z]) { xrtm_get_levels_z(d, t); for (i = 0; i <= NL; i++) CMP("levels_z", t[i], s->z[i], i, 0); }
     if (s->set[s_lev]) { xrtm_get_out_levels(d, ti); for (i = 0; i < NV; i++) CMP("out_levels", ti[i], s->lev[i], i, 0); }
     if (s->set[s_taus]) { xrtm_get_out_taus(d, t); for (i = 0; i < NV; i++) CMP("out_taus", t[i], s->taus[i], i, 0); }
     if (s->set[s_oth]) { xrtm_get_out_thetas(d, t); for (i = 0; i < NU; i++) CMP("out_thetas", t[i] / 90., s->oth[i] / 90., i, 0); }
     if (s->set[s_ft]) CMP("F_iso_top", xrtm_get_F_iso_top(d), s->ft, 0, 0);
     if (s->set[s_fb]) CMP("F_iso_bot", xrtm_get_F_iso_bot(d), s->fb, 0, 0);
     if (s->set[s_F0]) CMP("F_0", xrtm_get_F_0(d), s->F0, 0, 0);
     if (s->set[s_th]) CMP("theta_0", xrtm_get_theta_0(d) / 90., s->th / 90., 0, 0);
     if (s->set[s_phi]) CMP("phi_0", xrtm_get_phi_0(d), s->phi, 0, 0);
     if (s->set[s_b]) { xrtm_get_levels_b(d, t); for (i = 0; i <= NL; i++) CMP("levels_b", t[i], s->b[i], i, 0); }
     if (s->set[s_sb]) CMP("surface_b", xrtm_get_surface_b(d), s->sb, 0, 0);
     for (j = 0; j < NDD; j++) { CMP("F_iso_top_l", xrtm_get_F_iso_top_l(d, j), s->ftl[j], j, 0); CMP("F_iso_bot_l", xrtm_get_F_iso_bot_l(d, j), s->fbl[j], j, 0);
       if (has(XRTM_OPTION_SOURCE_THERMAL)) { CMP("surface_b_l", xrtm_get_surface_b_l(d, j), s->sbl[j], j, 0); xrtm_get_levels_b_l(d, j, t); for (i = 0; i <= NL; i++) CMP("levels_b_l", t[i], s->bl[i][j], i, j); } }
     for (i = 0; i < NL; i++) {
       if (s->so[i]) CMP("omega", xrtm_get_omega(d, i), s->om[i], i, 0);
       if (s->st[i]) CMP("ltau", xrtm_get_ltau(d, i), s->lt[i], i, 0);
       if (s->sc[i]) { CMP("n_coef", xrtm_get_n_coef(d, i), s->ncl[i], i, 0); for (k = 0; k < NE; k++) for (l = 0; l < s->ncl[i]; l++) CMP("coef", xrtm_get_coef(d, i, k, l), s->co[i][k][l], i, k*100 + l); }
       for (j = 0; j < NDD; j++) { CMP("omega_l", xrtm_get_omega_l(d, i, j), s->oml[i][j], i, j); CMP("ltau_l", xrtm_get_ltau_l(d, i, j), s->ltl[i][j], i, j);
         if (s->sc[i]) for (k = 0; k < NE; k++) for (l = 0; l < s->ncl[i]; l++) CMP("coef_l", xrtm_get_coef_l(d, i, j, k, l), s->col[i][j][k][l], i*10 + j, k*100 + l); } }
     for (i = 0; i < NK; i++) { int np = kernel_n_params(KT[i]);
       if (s->ska[i]) CMP("kernel_ampfac", xrtm_get_kernel_ampfac(d, i), s->ka[i], i, 0);
       for (k = 0; k < np; k++) if (s->skp[i][k]) CMP("kernel_params", xrtm_get_kernel_params(d, i, k), s->kp[i][k], i, k);
       for (j = 0; j < NDD; j++) { CMP("kernel_ampfac_l", xrtm_get_kernel_ampfac_l(d, i, j), s->kal[i][j], i, j); for (k = 0; k < np; k++) CMP("kernel_params_l", xrtm_get_kernel_params_l(d, i, j, k), s->kpl[i][j][k], i*10 + j, k); } }
     if (xrtm_get_options(d) != d->options || xrtm_get_n_layers(d) != NL || xrtm_get_n_derivs(d) != NDD || xrtm_get_max_coef(d) != NC || xrtm_get_n_out_levels(d) != NV || xrtm_get_n_out_thetas(d) != NU || xrtm_get_n_kernels(d) != NK || xrtm_get_kernel(d, 0) != KT[0] || xrtm_get_kernel(d, 1) != KT[1]) { printf("a dimension reads differently\n"); return 1; }
     return 0; }
static char OP[200];
#define OK(x) do { strncpy(OP, #x, 199); if (x) { printf("valid call refused: %s\n", #x); return 1; } } while (0)
/* one random valid call */
static int valid(xrtm_data *d, sh_t *s) { int i = R(NL), j = NDD ? R(NDD) : 0, c = R(56), k, l, m, kk = R(NK), np = kernel_n_params(KT[kk]), p = np ? R(np) : 0; double v = V(), t[32], *pt[8], **ppt[8], ***pppt[8]; static double A[NL][ND][6][NC];
     double *Q[NL][ND][6]; double **QQ[NL][ND], ***QQQ[NL]; OP[0] = 0; if (FORCE >= 0) c = FORCE;
     int adding = sol(XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_PADE_ADD | XRTM_SOLVER_SOS | XRTM_SOLVER_TWO_OS);
     for (m = 0; m < NL; m++) { for (k = 0; k < ND; k++) { for (l = 0; l < 6; l++) { int q; for (q = 0; q < NC; q++) A[m][k][l][q] = COEF(l, q); Q[m][k][l] = A[m][k][l]; } QQ[m][k] = Q[m][k]; } QQQ[m] = QQ[m]; }
     if (c >= 43) for (m = 0; m < NL; m++) for (k = 0; k < ND; k++) { A[m][k][0][0] = 0.; Q[m][k][0] = A[m][k][0]; }
     switch (c) {
     case 0: if (sol(XRTM_SOLVER_DOUB_ADD)) { OK(xrtm_set_doub_d_tau(d, v)); s->doub = v; s->set[s_doub] = 1; } break;
     case 1: if (sol(XRTM_SOLVER_PADE_ADD)) { OK(xrtm_set_pade_params(d, 2 + c, 3 + i)); s->pade_s = 2 + c; s->pade_r = 3 + i; s->set[s_pade] = 1; } break;
     case 2: if (sol(XRTM_SOLVER_SOS)) { OK(xrtm_set_sos_params(d, 3 + i, v, v / 3)); s->sosmax = 3 + i; s->sostau = v; s->sostol = v / 3; s->set[s_sos] = 1; } break;
     case 3: v *= FTOL; OK(xrtm_set_fourier_tol(d, v)); s->four = v; s->set[s_four] = 1; break;
     case 4: if (has(XRTM_OPTION_SOURCE_THERMAL)) { OK(xrtm_set_lambda(d, v)); s->lambda = v; s->set[s_lambda] = 1; } break;
     case 5: if (has(XRTM_OPTION_PSA)) { OK(xrtm_set_planet_r(d, v)); s->pr = v; s->set[s_pr] = 1; } break;
     case 6: if (has(XRTM_OPTION_PSA)) { t[NL] = v; for (k = NL - 1; k >= 0; k--) t[k] = t[k+1] + V(); OK(xrtm_set_levels_z(d, t)); for (k = 0; k <= NL; k++) s->z[k] = t[k]; s->set[s_z] = 1; } break;
     case 7: if (has(XRTM_OPTION_OUTPUT_AT_LEVELS)) { int q[MV]; q[0] = 0; q[1] = NL; if (!adding) { q[0] = R(NL - 1); q[1] = q[0] + 1 + R(NL - 1 - q[0]); q[2] = q[1] + 1 + R(NL - q[1]); } OK(xrtm_set_out_levels(d, q)); memcpy(s->lev, q, NV * sizeof(int)); s->set[s_lev] = 1; } break;
     case 8: if (has(XRTM_OPTION_OUTPUT_AT_TAUS)) { t[0] = v * TAU; t[1] = t[0] + TAU * V(); t[2] = t[1] + TAU * V(); OK(xrtm_set_out_taus(d, t)); memcpy(s->taus, t, NV * sizeof(double)); s->set[s_taus] = 1; } break;
     case 9: if (NU) { t[0] = 5 + 30 * v; t[1] = 45 + 40 * V(); OK(xrtm_set_out_thetas(d, t)); s->oth[0] = t[0]; s->oth[1] = t[1]; s->set[s_oth] = 1; } break;
     case 10: OK(xrtm_set_F_iso_top(d, v)); s->ft = v; s->set[s_ft] = 1; break;
     case 11: OK(xrtm_set_F_iso_bot(d, v)); s->fb = v; s->set[s_fb] = 1; break;
     case 12: if (has(XRTM_OPTION_SOURCE_SOLAR)) { OK(xrtm_set_F_0(d, v)); s->F0 = v; s->set[s_F0] = 1; } break;
     case 13: if (has(XRTM_OPTION_SOURCE_SOLAR)) { OK(xrtm_set_theta_0(d, 80 * v)); s->th = 80 * v; s->set[s_th] = 1; } break;
     case 14: if (has(XRTM_OPTION_SOURCE_SOLAR)) { OK(xrtm_set_phi_0(d, 300 * v)); s->phi = 300 * v; s->set[s_phi] = 1; } break;
     case 15: if (has(XRTM_OPTION_SOURCE_THERMAL)) { for (k = 0; k <= NL; k++) t[k] = V(); OK(xrtm_set_levels_b(d, t)); memcpy(s->b, t, sizeof(s->b)); s->set[s_b] = 1; } break;
     case 16: if (has(XRTM_OPTION_SOURCE_THERMAL)) { OK(xrtm_set_surface_b(d, v)); s->sb = v; s->set[s_sb] = 1; } break;
     case 17: OK(xrtm_set_omega_1(d, i, v)); s->om[i] = v; s->so[i] = 1; break;
     case 18: for (k = 0; k < NL; k++) { s->om[k] = t[k] = V(); s->so[k] = 1; } OK(xrtm_set_omega_n(d, t)); break;
     case 19: OK(xrtm_set_ltau_1(d, i, v)); s->lt[i] = v; s->st[i] = 1; break;
     case 20: for (k = 0; k < NL; k++) { s->lt[k] = t[k] = V(); s->st[k] = 1; } OK(xrtm_set_ltau_n(d, t)); break;
     case 21: case 22: { int n = 1 + R(NC); for (k = 0; k < NE; k++) { A[i][0][k][0] = k == 0 ? 1. : k == 3 ? COEF(k, 0) : 0.; pt[k] = A[i][0][k]; } OK(xrtm_set_coef_1(d, i, n, pt)); s->ncl[i] = n; s->sc[i] = 1; for (k = 0; k < NE; k++) for (l = 0; l < n; l++) s->co[i][k][l] = A[i][0][k][l]; } break;
     case 23: { int n[NL]; for (m = 0; m < NL; m++) { n[m] = 1 + R(NC); A[m][0][0][0] = 1.; QQ[m][0] = Q[m][0]; } for (m = 0; m < NL; m++) ppt[m] = Q[m][0]; OK(xrtm_set_coef_n(d, n, ppt)); for (m = 0; m < NL; m++) { s->ncl[m] = n[m]; s->sc[m] = 1; for (k = 0; k < NE; k++) for (l = 0; l < n[m]; l++) s->co[m][k][l] = A[m][0][k][l]; } } break;
     case 24: OK(xrtm_set_kernel_ampfac(d, kk, v)); s->ka[kk] = v; s->ska[kk] = 1; break;
     case 25: if (np) OK(xrtm_set_kernel_params_1(d, kk, p, v)); if (np) { s->kp[kk][p] = v; s->skp[kk][p] = 1; } break;
     case 26: for (k = 0; k < np; k++) t[k] = V(); OK(xrtm_set_kernel_params_n(d, kk, t)); for (k = 0; k < np; k++) { s->kp[kk][k] = t[k]; s->skp[kk][k] = 1; } break;
     default: if (!NDD) break;
     v = R(3) ? v : 0;
     switch (c) {
#define BND(n, name, f, cond) case n: if (cond) { OK(xrtm_set_##name##_l_1(d, j, v)); s->f[j] = v; } break; case n + 1: if (cond) { for (k = 0; k < NDD; k++) t[k] = V(); OK(xrtm_set_##name##_l_n(d, t)); for (k = 0; k < NDD; k++) s->f[k] = t[k]; } break;
     BND(27, F_iso_top, ftl, 1) BND(29, F_iso_bot, fbl, 1) BND(31, surface_b, sbl, has(XRTM_OPTION_SOURCE_THERMAL))
     case 33: if (has(XRTM_OPTION_SOURCE_THERMAL)) { for (k = 0; k <= NL; k++) t[k] = V(); OK(xrtm_set_levels_b_l_1(d, j, t)); for (k = 0; k <= NL; k++) s->bl[k][j] = t[k]; } break;
     case 34: if (has(XRTM_OPTION_SOURCE_THERMAL)) { for (k = 0; k <= NL; k++) { pt[k] = t + k * NDD; for (l = 0; l < NDD; l++) s->bl[k][l] = pt[k][l] = V(); } OK(xrtm_set_levels_b_l_n(d, pt)); } break;
#define LAY(n, name, f) case n: OK(xrtm_set_##name##_l_11(d, i, j, v)); s->f[i][j] = v; break; \
     case n + 1: for (k = 0; k < NL; k++) s->f[k][j] = t[k] = V(); OK(xrtm_set_##name##_l_n1(d, j, t)); break; \
     case n + 2: for (k = 0; k < NDD; k++) s->f[i][k] = t[k] = V(); OK(xrtm_set_##name##_l_1n(d, i, t)); break; \
     case n + 3: for (k = 0; k < NL; k++) { pt[k] = t + k * NDD; for (l = 0; l < NDD; l++) s->f[k][l] = pt[k][l] = V(); } OK(xrtm_set_##name##_l_nn(d, pt)); break;
     LAY(35, omega, oml) LAY(39, ltau, ltl)
#define CO(x, y) for (k = 0; k < NE; k++) for (l = 0; l < s->ncl[x]; l++) s->col[x][y][k][l] = A[x][y][k][l]
     case 43: if (s->sc[i]) { OK(xrtm_set_coef_l_11(d, i, j, Q[i][j])); CO(i, j); } break;
     case 44: for (m = 0; m < NL; m++) if (!s->sc[m]) break; if (m == NL) { for (m = 0; m < NL; m++) ppt[m] = Q[m][j]; OK(xrtm_set_coef_l_n1(d, j, ppt)); for (m = 0; m < NL; m++) CO(m, j); } break;
     case 45: if (s->sc[i]) { OK(xrtm_set_coef_l_1n(d, i, QQ[i])); for (m = 0; m < NDD; m++) CO(i, m); } break;
     case 46: for (m = 0; m < NL; m++) if (!s->sc[m]) break; if (m == NL) { int q; OK(xrtm_set_coef_l_nn(d, QQQ)); for (m = 0; m < NL; m++) for (q = 0; q < NDD; q++) CO(m, q); } break;
     case 47: OK(xrtm_set_kernel_ampfac_l_1(d, kk, j, v)); s->kal[kk][j] = v; break;
     case 48: for (k = 0; k < NDD; k++) s->kal[kk][k] = t[k] = V(); OK(xrtm_set_kernel_ampfac_l_n(d, kk, t)); break;
     case 49: if (!np) break; OK(xrtm_set_kernel_params_l_11(d, kk, j, p, v)); s->kpl[kk][j][p] = v; break;
     case 50: for (k = 0; k < np; k++) s->kpl[kk][j][k] = t[k] = V(); OK(xrtm_set_kernel_params_l_1n(d, kk, j, t)); break;
     case 51: if (!np) break; for (k = 0; k < NDD; k++) s->kpl[kk][k][p] = t[k] = V(); OK(xrtm_set_kernel_params_l_n1(d, kk, p, t)); break;
     case 52: for (k = 0; k < NDD; k++) { pt[k] = t + k * MP; for (l = 0; l < np; l++) s->kpl[kk][k][l] = pt[k][l] = V(); } OK(xrtm_set_kernel_params_l_nn(d, kk, pt)); break;
     } }
     return 0; }
static int CFG[][3] = { {XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_PHASE_SCALAR, XRTM_SOLVER_EIG_BVP, 1}, {XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_PSA, XRTM_SOLVER_EIG_BVP, 1},
  {XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_DELTA_M | XRTM_OPTION_N_T_TMS, XRTM_SOLVER_EIG_BVP, 1}, {XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_VECTOR | XRTM_OPTION_PHASE_MATRIX_GC | XRTM_OPTION_CALC_DERIVS, XRTM_SOLVER_EIG_BVP, 4},
  {XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_CALC_DERIVS, XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_PADE_ADD, 1}, {XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_PHASE_SCALAR, XRTM_SOLVER_SOS | XRTM_SOLVER_DOUB_ADD, 1},
  {XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_CALC_DERIVS, XRTM_SOLVER_EIG_BVP, 1} };
#define NCFG ((int) (sizeof(CFG) / sizeof(CFG[0])))
static int make(xrtm_data *d, int c, int nu) { OPT = BASE | CFG[c][0] | EXTRA; SOLVER = CFG[c][1]; NV = SOLVER & XRTM_SOLVER_EIG_BVP ? 3 : 2; STOKES = CFG[c][2]; NE = STOKES > 1 ? 6 : 1; NDD = has(XRTM_OPTION_CALC_DERIVS) ? ND - (c % 3 == 1) : 0; NU = nu;
     return xrtm_create(d, OPT, SOLVER, NC, 2, STOKES, NDD, NL, 1, NK, 8, KT, NV, nu); }
