/* random invalid calls on the real code, mixed with valid ones: each one returns the documented error and no input that can be read back changes */
#include "api.h"
static int bad; static char W[300];
#define EI(x) do { int r_ = (int) (x); if (r_ != XRTM_INT_ERROR) { snprintf(W, 300, "%s returned %d", #x, r_); bad = 1; } else snprintf(W, 300, "%s", #x); } while (0)
#define ED(x) do { double r_ = (x); if (r_ != XRTM_DBL_ERROR) { snprintf(W, 300, "%s returned %g", #x, r_); bad = 1; } else snprintf(W, 300, "%s", #x); } while (0)
#define WHEN(c, x) if (c) { x; } break
static int out(int n) { switch (R(4)) { case 0: return -1; case 1: return n; case 2: return n + 1 + R(5); } return -1 - R(1000); }
static int inval(xrtm_data *d, sh_t *s) { int i = R(NL), j = R(ND), kk = R(NK), np = kernel_n_params(KT[kk]), p = R(np), np0, k, l, q[MV], n[NL], ti[8]; double v = V(), t[64], neg = -V(), big = 1 + V(); static double A[6][NC]; double *pt[8], **ppt[8], *rows[8], **pp2[NL][ND], ***ppp[NL];
     int th = has(XRTM_OPTION_SOURCE_THERMAL), solar = has(XRTM_OPTION_SOURCE_SOLAR), psa = has(XRTM_OPTION_PSA), calc = NDD > 0, lev = has(XRTM_OPTION_OUTPUT_AT_LEVELS), oi = out(NL), ok = out(NK), od, op = out(np);
     int adding = sol(XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_PADE_ADD | XRTM_SOLVER_SOS | XRTM_SOLVER_TWO_OS);
     od = out(NDD); bad = 0; W[0] = 0;
     for (k = 0; k < 6; k++) for (l = 0; l < NC; l++) A[k][l] = V();
     for (k = 0; k < 8; k++) { pt[k] = k < 6 ? A[k] : A[0]; ppt[k] = pt; rows[k] = t + 8 * k; } for (k = 0; k < NL; k++) { for (l = 0; l < ND; l++) pp2[k][l] = pt; ppp[k] = pp2[k]; }
     for (k = 0; k < 64; k++) t[k] = V();
     switch (R(72)) {
     case 0: EI(xrtm_set_doub_d_tau(d, R(2) ? neg : 0.)); break;
     case 1: WHEN(!sol(XRTM_SOLVER_DOUB_ADD), ED(xrtm_get_doub_d_tau(d)));
     case 2: WHEN(!sol(XRTM_SOLVER_PADE_ADD), EI(xrtm_get_pade_params(d, &ti[0], &ti[1])));
     case 3: switch (R(3)) { case 0: EI(xrtm_set_sos_params(d, -R(2), v, v)); break; case 1: EI(xrtm_set_sos_params(d, 3, R(2) ? neg : 0., v)); break; default: EI(xrtm_set_sos_params(d, 3, v, neg)); } break;
     case 4: WHEN(!sol(XRTM_SOLVER_SOS), EI(xrtm_get_sos_params(d, &ti[0], &t[0], &t[1])));
     case 5: EI(xrtm_set_fourier_tol(d, neg)); break;
     case 6: EI(xrtm_set_lambda(d, th ? (R(2) ? neg : 0.) : v)); break;
     case 7: WHEN(!th, ED(xrtm_get_lambda(d)));
     case 8: EI(xrtm_set_planet_r(d, psa ? (R(2) ? neg : 0.) : v)); break;
     case 9: WHEN(!psa, ED(xrtm_get_planet_r(d)));
     case 10: for (k = 0; k <= NL; k++) t[k] = 9. - k; if (psa) { k = R(NL); t[k+1] = t[k] + v; for (l = k + 2; l <= NL; l++) t[l] = t[l-1] - .01; } EI(xrtm_set_levels_z(d, t)); break;
     case 11: WHEN(!psa, EI(xrtm_get_levels_z(d, t)));
     case 12: q[0] = 0; q[1] = adding ? NL : 1; q[2] = NL; if (lev) switch (R(adding ? 6 : 7)) { case 0: q[0] = -1 - R(3); break; case 1: q[NV-1] = NL + 1 + R(3); break; case 2: q[NV-1] = q[NV-2] = 1 + R(NL); break; case 3: q[NV-2] = NL; q[NV-1] = R(NL); break; case 4: q[0] = q[1]; break;
          case 5: if (adding) { q[R(2)] = 1 + R(NL - 1); } else { q[0] = 2; q[1] = 1; q[2] = 3; } break; default: q[0] = 1 + R(3); q[1] = q[0] - 1; } EI(xrtm_set_out_levels(d, q)); break;
     case 13: WHEN(!lev, EI(xrtm_get_out_levels(d, ti)));
     case 14: t[0] = v; t[1] = v + 1; t[2] = v + 2; if (!lev) { k = R(NV); t[k] = neg; } EI(xrtm_set_out_taus(d, t)); break;
     case 15: WHEN(lev, EI(xrtm_get_out_taus(d, t)));
     case 16: t[0] = 10; t[1] = 60; if (NU) t[R(NU)] = R(3) ? neg : R(2) ? 90. : 90 + 100 * v; EI(xrtm_set_out_thetas(d, t)); break;
     case 17: WHEN(!NU, EI(xrtm_get_out_thetas(d, t)));
     case 18: EI(xrtm_set_F_iso_top(d, neg)); break;
     case 19: EI(xrtm_set_F_iso_bot(d, neg)); break;
     case 20: EI(xrtm_set_F_0(d, solar ? neg : v)); break;
     case 21: EI(xrtm_set_theta_0(d, solar ? (R(3) ? neg : R(2) ? 90. : 90 + 90 * v) : v)); break;
     case 22: break;
     case 23: WHEN(!solar, if (R(2)) ED(xrtm_get_F_0(d)); else ED(xrtm_get_theta_0(d)));
     case 24: if (th) t[R(NL + 1)] = neg; EI(xrtm_set_levels_b(d, t)); break;
     case 25: WHEN(!th, EI(xrtm_get_levels_b(d, t)));
     case 26: EI(xrtm_set_surface_b(d, th ? neg : v)); break;
     case 27: WHEN(!th, ED(xrtm_get_surface_b(d)));
     case 28: if (R(2)) EI(xrtm_set_omega_1(d, oi, v)); else EI(xrtm_set_omega_1(d, i, R(2) ? neg : big)); break;
     case 29: t[R(NL)] = R(2) ? neg : big; EI(xrtm_set_omega_n(d, t)); break;
     case 30: if (R(2)) EI(xrtm_set_ltau_1(d, oi, v)); else EI(xrtm_set_ltau_1(d, i, R(2) ? neg : 0.)); break;
     case 31: t[R(NL)] = R(2) ? neg : 0.; EI(xrtm_set_ltau_n(d, t)); break;
     case 32: ED(xrtm_get_omega(d, oi)); break;
     case 33: ED(xrtm_get_ltau(d, oi)); break;
     case 34: if (R(2)) { A[0][0] = 1; EI(xrtm_set_coef_1(d, oi, 2, pt)); } else if (R(2)) { A[0][0] = 1; EI(xrtm_set_coef_1(d, i, NC + 1 + R(9), pt)); } else { A[0][0] = R(2) ? .5 * v : 1.01; EI(xrtm_set_coef_1(d, i, 2 + R(NC - 1), pt)); } break;
     case 35: A[0][0] = 1; for (k = 0; k < NL; k++) n[k] = 1 + R(NC); if (R(2)) n[R(NL)] = R(2) ? NC + 1 + R(9) : -1 - R(9); else { n[R(NL)] = 2; A[0][0] = .5 * v; } EI(xrtm_set_coef_n(d, n, ppt)); break;
     case 36: EI(xrtm_get_n_coef(d, oi)); break;
     case 37: if (s->sc[i]) switch (R(3)) { case 0: ED(xrtm_get_coef(d, oi, 0, 0)); break; case 1: ED(xrtm_get_coef(d, i, out(NE), 0)); break; default: ED(xrtm_get_coef(d, i, 0, out(s->ncl[i]))); } break;
     case 38: if (calc && s->sc[i]) switch (R(4)) { case 0: ED(xrtm_get_coef_l(d, oi, j, 0, 0)); break; case 1: ED(xrtm_get_coef_l(d, i, od, 0, 0)); break; case 2: ED(xrtm_get_coef_l(d, i, j, out(NE), 0)); break; default: ED(xrtm_get_coef_l(d, i, j, 0, out(s->ncl[i]))); } break;
     case 39: if (R(2)) EI(xrtm_set_kernel_ampfac(d, ok, v)); else EI(xrtm_set_kernel_ampfac(d, kk, R(2) ? neg : big)); break;
     case 40: ED(xrtm_get_kernel_ampfac(d, ok)); break;
     case 41: if (R(2)) EI(xrtm_set_kernel_params_1(d, ok, 0, v)); else EI(xrtm_set_kernel_params_1(d, kk, op, v)); break;
     case 42: EI(xrtm_set_kernel_params_n(d, ok, t)); break;
     case 43: if (R(2)) ED(xrtm_get_kernel_params(d, ok, 0)); else ED(xrtm_get_kernel_params(d, kk, op)); break;
     case 44: EI(xrtm_get_kernel(d, ok)); break;
#define B1(n, name, c) case n: if (!calc || !(c)) EI(xrtm_set_##name##_l_1(d, 0, v)); else EI(xrtm_set_##name##_l_1(d, od, v)); break; case n + 1: WHEN(!calc || !(c), EI(xrtm_set_##name##_l_n(d, t))); case n + 2: ED(xrtm_get_##name##_l(d, calc && !(c) ? j : od)); break;
     B1(45, F_iso_top, 1) B1(48, F_iso_bot, 1) B1(51, surface_b, th)
     case 54: EI(xrtm_set_levels_b_l_1(d, !calc || !th ? 0 : od, t)); break;
     case 55: WHEN(!calc || !th, EI(xrtm_set_levels_b_l_n(d, rows)));
     case 56: EI(xrtm_get_levels_b_l(d, calc && !th ? j : od, t)); break;
#define LY(n, name) case n: if (!calc) EI(xrtm_set_##name##_l_11(d, i, 0, v)); else if (R(2)) EI(xrtm_set_##name##_l_11(d, oi, j, v)); else EI(xrtm_set_##name##_l_11(d, i, od, v)); break; \
     case n + 1: switch (R(calc ? 2 : 4)) { case 0: EI(xrtm_set_##name##_l_n1(d, calc ? od : 0, t)); break; case 1: EI(xrtm_set_##name##_l_1n(d, calc ? oi : i, t)); break; case 2: EI(xrtm_set_##name##_l_nn(d, rows)); break; default: EI(xrtm_set_##name##_l_1n(d, oi, t)); } break; \
     case n + 2: if (R(2)) ED(xrtm_get_##name##_l(d, oi, j)); else ED(xrtm_get_##name##_l(d, i, od)); break;
     LY(57, omega) LY(60, ltau)
     case 63: switch (R(calc ? 4 : 2)) { case 0: if (s->sc[i]) { if (calc) EI(xrtm_set_coef_l_11(d, i, od, pt)); else EI(xrtm_set_coef_l_11(d, i, 0, pt)); } break; case 1: EI(xrtm_set_coef_l_n1(d, calc ? od : 0, ppt)); break; case 2: EI(xrtm_set_coef_l_11(d, oi, j, pt)); break; default: EI(xrtm_set_coef_l_1n(d, oi, ppt)); } break;
     case 64: WHEN(!calc, if (R(2)) EI(xrtm_set_coef_l_nn(d, ppp)); else EI(xrtm_set_coef_l_1n(d, i, ppt)));
     case 65: switch (R(calc ? 2 : 3)) { case 0: EI(xrtm_set_kernel_ampfac_l_1(d, ok, calc ? j : 0, v)); break; case 1: EI(xrtm_set_kernel_ampfac_l_1(d, kk, calc ? od : 0, v)); break; default: EI(xrtm_set_kernel_ampfac_l_n(d, kk, t)); } break;
     case 66: EI(xrtm_set_kernel_ampfac_l_n(d, ok, t)); break;
     case 67: if (R(2)) ED(xrtm_get_kernel_ampfac_l(d, ok, j)); else ED(xrtm_get_kernel_ampfac_l(d, kk, od)); break;
     case 68: switch (R(3)) { case 0: EI(xrtm_set_kernel_params_l_11(d, ok, calc ? j : 0, 0, v)); break; case 1: EI(xrtm_set_kernel_params_l_11(d, kk, calc ? od : 0, p, v)); break; default: EI(xrtm_set_kernel_params_l_11(d, kk, calc ? j : 0, op, v)); } break;
     case 69: switch (R(4)) { case 0: EI(xrtm_set_kernel_params_l_1n(d, ok, calc ? j : 0, t)); break; case 1: EI(xrtm_set_kernel_params_l_1n(d, kk, calc ? od : 0, t)); break; case 2: EI(xrtm_set_kernel_params_l_n1(d, ok, 0, t)); break; default: EI(xrtm_set_kernel_params_l_n1(d, kk, op, t)); } break;
     case 70: EI(xrtm_set_kernel_params_l_nn(d, ok, rows)); break;
     case 71: switch (R(3)) { case 0: ED(xrtm_get_kernel_params_l(d, ok, j, 0)); break; case 1: ED(xrtm_get_kernel_params_l(d, kk, od, p)); break; default: ED(xrtm_get_kernel_params_l(d, kk, j, op)); } break;
     }
     return bad; }
/* every input that has not been set yet reads as an error */
static int unset(xrtm_data *d, sh_t *s) { int i, k, ti[8]; double t[32]; bad = 0;
#define U(f, x) if (!bad && !s->set[f]) x
     U(s_F0, ED(xrtm_get_F_0(d))); U(s_th, ED(xrtm_get_theta_0(d))); U(s_phi, ED(xrtm_get_phi_0(d))); U(s_ft, ED(xrtm_get_F_iso_top(d))); U(s_fb, ED(xrtm_get_F_iso_bot(d))); U(s_lambda, ED(xrtm_get_lambda(d))); U(s_pr, ED(xrtm_get_planet_r(d)));
     U(s_four, ED(xrtm_get_fourier_tol(d))); U(s_doub, ED(xrtm_get_doub_d_tau(d))); U(s_pade, EI(xrtm_get_pade_params(d, &ti[0], &ti[1]))); U(s_sos, EI(xrtm_get_sos_params(d, &ti[0], &t[0], &t[1]))); U(s_z, EI(xrtm_get_levels_z(d, t))); U(s_lev, EI(xrtm_get_out_levels(d, ti)));
     U(s_taus, EI(xrtm_get_out_taus(d, t))); U(s_oth, EI(xrtm_get_out_thetas(d, t))); U(s_b, EI(xrtm_get_levels_b(d, t))); U(s_sb, ED(xrtm_get_surface_b(d)));
     for (i = 0; i < NL && !bad; i++) { if (!s->so[i]) ED(xrtm_get_omega(d, i)); if (!bad && !s->st[i]) ED(xrtm_get_ltau(d, i)); if (!bad && !s->sc[i]) EI(xrtm_get_n_coef(d, i)); if (!bad && !s->sc[i]) ED(xrtm_get_coef(d, i, 0, 0)); }
     for (i = 0; i < NK && !bad; i++) { if (!s->ska[i]) ED(xrtm_get_kernel_ampfac(d, i)); for (k = 0; k < kernel_n_params(KT[i]) && !bad; k++) if (!s->skp[i][k]) ED(xrtm_get_kernel_params(d, i, k)); }
     return bad; }
/* a solve: opens the gate if everything required has been set, after which reading is no longer governed by the marks */
static void gate(xrtm_data *d) { int m = NU ? NU : 2; double ****a = alloc_array4_d(NV, m, 1, STOKES), ****b = alloc_array4_d(NV, m, 1, STOKES), *****ka = NULL, *****kb = NULL, **ph = alloc_array2_d(m, 1); int i;
     for (i = 0; i < m; i++) ph[i][0] = 30.; if (NDD) { ka = alloc_array5_d(NV, NDD, m, 1, STOKES); kb = alloc_array5_d(NV, NDD, m, 1, STOKES); xrtm_update_varied_layers(d); }
     xrtm_radiance(d, SOLVER & -SOLVER, 1, ph, a, b, ka, kb); free_array4_d(a); free_array4_d(b); free_array2_d(ph); if (NDD) { free_array5_d(ka); free_array5_d(kb); } }
/* angles close to the ends of their domain are accepted */
static int edges(void) { int c; static xrtm_data d; double t[8], z; for (c = 0; c < NCFG; c++) { if (make(&d, c, 2)) continue;
     for (z = 0.; z < 3.; z += .7) { t[0] = z; t[1] = 89.9 - z; if (xrtm_set_out_thetas(&d, t)) { printf("out_thetas = %g %g refused\n", t[0], t[1]); return 1; } }
     if (has(XRTM_OPTION_SOURCE_SOLAR)) for (z = 0.; z < 90.; z += 89.99 / 4) if (xrtm_set_theta_0(&d, z)) { printf("theta_0 = %g refused\n", z); return 1; }
     xrtm_destroy(&d); } return 0; }
int main() { int c, n, it; if (!freopen("/dev/null", "w", stderr)) return 0; if (edges()) return 1;
     for (it = 0; it < 6; it++) for (c = 0; c < NCFG; c++) { static xrtm_data d; static sh_t s; memset(&s, 0, sizeof(s)); if (make(&d, c, it % 2 ? NTH : 0)) continue;
     for (n = 0; n < 3000; n++) { if (n == 1200 || n == 2000) gate(&d); if (n < 150 && unset(&d, &s)) { printf("an input that was never set: configuration %d: %s\n", c, W); return 1; }
          if (R(3) == 0) valid(&d, &s); else if (inval(&d, &s)) { printf("invalid call accepted: configuration %d: %s\n", c, W); return 1; } else if (cmp(&d, &s)) { printf("after the refused call %s\n", W); return 1; } } xrtm_destroy(&d); } return 0; }
