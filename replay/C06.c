/* random sequences of set calls and solves on the real code: every solve equals the solve of a fresh handle with the same inputs */
#define KERNELS XRTM_KERNEL_DIRECT_AND_DIFFUSE, XRTM_KERNEL_LAMBERTIAN
#define COEF(k, l) ((k) == 0 || (k) == 3 ? (1 - .3 * ((k) == 3)) * (2 * (l) + 1) * pow(.45, l) * (.6 + .4 * V()) : .1 * pow(.4, l) * V())
#define TAU .1
#define FTOL 1e-7
#include "api.h"
#include "solve.h"
static void put(xrtm_data *d, sh_t *s) { int i, j, k, l; double t[32], *pt[8];
     xrtm_set_fourier_tol(d, s->four); if (s->set[s_doub]) xrtm_set_doub_d_tau(d, s->doub); if (s->set[s_pade]) xrtm_set_pade_params(d, s->pade_s, s->pade_r); if (s->set[s_sos]) xrtm_set_sos_params(d, s->sosmax, s->sostau, s->sostol);
     if (s->set[s_lambda]) xrtm_set_lambda(d, s->lambda); if (s->set[s_pr]) xrtm_set_planet_r(d, s->pr); if (s->set[s_z]) xrtm_set_levels_z(d, s->z); if (s->set[s_lev]) xrtm_set_out_levels(d, s->lev); if (s->set[s_taus]) xrtm_set_out_taus(d, s->taus); if (s->set[s_oth]) xrtm_set_out_thetas(d, s->oth);
     xrtm_set_F_iso_top(d, s->ft); xrtm_set_F_iso_bot(d, s->fb); if (s->set[s_F0]) { xrtm_set_F_0(d, s->F0); xrtm_set_theta_0(d, s->th); xrtm_set_phi_0(d, s->phi); } if (s->set[s_b]) { xrtm_set_levels_b(d, s->b); xrtm_set_surface_b(d, s->sb); }
     for (i = 0; i < NL; i++) { for (k = 0; k < NE; k++) pt[k] = s->co[i][k]; xrtm_set_coef_1(d, i, s->ncl[i], pt); xrtm_set_omega_1(d, i, s->om[i]); xrtm_set_ltau_1(d, i, s->lt[i]); }
     for (i = 0; i < NK; i++) { xrtm_set_kernel_ampfac(d, i, s->ka[i]); if (kernel_n_params(KT[i])) xrtm_set_kernel_params_n(d, i, s->kp[i]); }
     for (j = 0; j < NDD; j++) { xrtm_set_F_iso_top_l_1(d, j, s->ftl[j]); xrtm_set_F_iso_bot_l_1(d, j, s->fbl[j]); if (s->set[s_b]) { xrtm_set_surface_b_l_1(d, j, s->sbl[j]); for (i = 0; i <= NL; i++) t[i] = s->bl[i][j]; xrtm_set_levels_b_l_1(d, j, t); }
       for (i = 0; i < NL; i++) { xrtm_set_omega_l_11(d, i, j, s->oml[i][j]); xrtm_set_ltau_l_11(d, i, j, s->ltl[i][j]); for (k = 0; k < NE; k++) pt[k] = s->col[i][j][k]; xrtm_set_coef_l_11(d, i, j, pt); }
       for (i = 0; i < NK; i++) { xrtm_set_kernel_ampfac_l_1(d, i, j, s->kal[i][j]); if (kernel_n_params(KT[i])) xrtm_set_kernel_params_l_1n(d, i, j, s->kpl[i][j]); } }
     if (NDD) xrtm_update_varied_layers(d); }
static int same(res_t *a, res_t *b) { int i; if (a->rc != b->rc) { printf("status %d, %d on a fresh handle\n", a->rc, b->rc); return 0; } if (a->rc) return 1;
     for (i = 0; i < a->n; i++) if (!(fabs(a->v[i] - b->v[i]) <= 1e-9 * (1 + fabs(b->v[i])) || (a->v[i] != a->v[i] && b->v[i] != b->v[i]))) { printf("result %d is %.15g, %.15g on a fresh handle\n", i, a->v[i], b->v[i]); return 0; } return 1; }
/* which derivative inputs are not zero */
static unsigned long act(sh_t *s) { unsigned long h = 5381; int i, j, k, l;
#define H(x) h = h * 33 + ((x) != 0.)
     for (j = 0; j < NDD; j++) { H(s->ftl[j]); H(s->fbl[j]); H(s->sbl[j]); for (i = 0; i <= NL; i++) H(s->bl[i][j]); for (i = 0; i < NL; i++) { H(s->oml[i][j]); H(s->ltl[i][j]); for (k = 0; k < NE; k++) for (l = 0; l < s->ncl[i]; l++) H(s->col[i][j][k][l]); }
       for (i = 0; i < NK; i++) { H(s->kal[i][j]); for (k = 0; k < MP; k++) H(s->kpl[i][j][k]); } } return h; }
int main() { int c, n, it, q, F[] = {5, 6, 7, 8, 9, 10, 12, 13, 13, 13, 14, 15, 16, 17, 19, 21, 24, 25, 27, 31, 33, 35, 39, 43, 47, 49}, solvers[] = {XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS}; if (!getenv("TELL") && !freopen("/dev/null", "w", stderr)) return 0;
     for (it = 0; it < 20; it++) for (c = 0; c < NCFG; c++) { static xrtm_data d; static sh_t s; memset(&s, 0, sizeof(s)); EXTRA = 0; FORCE = -1; if (it) for (q = 0; q < 5; q++) if (R(2)) EXTRA |= XRTM_OPTION_SAVE_LEG_POLYS << q; if (make(&d, c, it % 2 ? NTH : 0)) continue; if (fill(&d, &s)) continue;
     for (n = 0; n < 60; n++) { static res_t a, b; static char ops[4][200]; int what = XRTM_OUTPUT_RADIANCE | (R(2) ? XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX : 0), k = 0, ch = 1 + R(3); xrtm_data e; unsigned long h = act(&s);
          for (q = 0; q < ch; q++) { FORCE = R(3) ? F[R(sizeof(F) / sizeof(F[0]))] : -1; if (valid(&d, &s)) return 0; strcpy(ops[q], OP); }
          if (NDD && (!n || act(&s) != h)) xrtm_update_varied_layers(&d);
          for (k = q = 0; q < 5; q++) if (solvers[(q + it) % 5] & SOLVER) k = solvers[(q+it)%5]; 
          solve(&d, k, what, &a); if (make(&e, c, NU)) return 0; put(&e, &s); solve(&e, k, what, &b); xrtm_destroy(&e);
          if (getenv("TELL")) fprintf(stdout, "%d %d rc %d %d  %g %g\n", c, n, a.rc, b.rc, a.v[0], a.v[a.n-5]);
          if (!same(&a, &b)) { printf("options %x, extra %x, configuration %d, solver %d, outputs %d, after", OPT, EXTRA, c, k, what); for (q = 0; q < ch; q++) printf(" %s;", ops[q]); printf("\n"); return 1; } }
     xrtm_destroy(&d); } return 0; }
