/* adjoint routines of the real code against central differences of the forward routines of the real code: the adjoint of every input must
   grow by the transposed derivative applied to the adjoints of the outputs, and consumed adjoints must be reset */
#include "mat.h"
#include <setjmp.h>
#include <xrtm_adding.h>
#include <xrtm_adding_a.h>
#include <xrtm_radiance.h>
#include <xrtm_radiance_a.h>
#include <xrtm_source.h>
#include <xrtm_source_a.h>
#include <xrtm_utility.h>
#include <xrtm_utility_a.h>
#include <xrtm_scatter.h>
#include <xrtm_scatter_a.h>
#include <xrtm_save_tree.h>
#include <rtutil_support.h>
#define MX 400
typedef save_tree_data T_; typedef double *D_;
static int q1, q2, q3, q4, q5;                 /* configuration of the routine under test */
static double **M(double *p, int r, int c) { double **m = malloc((r + 1) * sizeof *m); int i; for (i = 0; i < r; i++) m[i] = p + i * c; return m; }
#define M3(p) M(p, 3, 3)
typedef struct { const char *name; int ni, no; void (*f)(D_ x, D_ y, T_ t); void (*a)(D_ x, D_ xa, D_ y, D_ ya, T_ t); int keep; const char *vary; } rt;
static work_data wk(void) { static work_data w[8]; static int n; if (!n) { for (n = 0; n < 8; n++) w[n] = mkwork(0); } return w[0]; }
static work_data W_(void) { return mkwork(0); }
static int fail(const char *n, const char *w, int i, double g, double e) { printf("%s: %s %d is %.12g instead of %.12g (configuration %d %d %d %d %d)\n", n, w, i, g, e, q1, q2, q3, q4, q5); return 1; }
/* vary[i]: '1' the input varies, '0' its adjoint must not change, '-' not claimed */
static int test(rt r) { double x[MX], xa[MX], xa0[MX], y[MX], ya[MX], ya0[MX], z[MX], u[MX], h, e; T_ t, none; int i, j; memset(&none, 0, sizeof none); memset(y, 0, sizeof y);
  for (i = 0; i < r.ni; i++) { x[i] = U_(); xa[i] = xa0[i] = U_() - .1; } for (i = 0; i < r.no; i++) ya[i] = ya0[i] = U_() * 4 - .5;
  save_tree_init(&t); r.f(x, y, t); r.a(x, xa, y, ya, t);
  for (i = 0; i < r.ni; i++) { char v = r.vary ? r.vary[i] : '1'; double s = x[i]; if (v == '-') continue; e = 0;
    if (v == '1') { h = 1e-5; memset(z, 0, sizeof z); memset(u, 0, sizeof u); x[i] = s + h; r.f(x, z, none); x[i] = s - h; r.f(x, u, none); x[i] = s; for (j = 0; j < r.no; j++) e += ya0[j] * (z[j] - u[j]) / (2 * h); }
    if (!(fabs(xa[i] - xa0[i] - e) <= (v == '1' ? 2e-7 * (1 + fabs(e)) : 0))) return fail(r.name, "change of the adjoint of input", i, xa[i] - xa0[i], e); }
  if (!r.keep) for (j = 0; j < r.no; j++) if (ya[j] != 0) return fail(r.name, "consumed adjoint of output", j, ya[j], 0);
  save_tree_free(&t); return 0; }

/* radiances: R 9, T 9, S 3, I1 3, I2 3 */
static void slab_f(D_ x, D_ y, T_ t) { radiance_slab(N, 0, M3(x), M3(x + 9), x + 18, 0, 0, 0, x + 21, x + 24, 0, 0, y, 0, 0, W_()); }
static void slab_a(D_ x, D_ a, D_ y, D_ b, T_ t) { radiance_slab_a(N, M3(x), M3(x + 9), x + 18, M3(a), M3(a + 9), a + 18, x + 21, x + 24, a + 21, a + 24, y, b, W_()); }
static void toar_f(D_ x, D_ y, T_ t) { radiance_toa_ref(N, 0, M3(x), x + 9, 0, 0, x + 12, 0, y, 0, 0, W_()); }
static void toar_a(D_ x, D_ a, D_ y, D_ b, T_ t) { radiance_toa_ref_a(N, M3(x), x + 9, M3(a), a + 9, x + 12, a + 12, y, b, W_()); }
static void toa_f(D_ x, D_ y, T_ t) { radiance_toa_all(N, 0, M3(x), M3(x + 9), x + 18, 0, 0, 0, x + 21, x + 24, 0, 0, y, y + 3, 0, 0, 0, W_()); }
static void toa_a(D_ x, D_ a, D_ y, D_ b, T_ t) { radiance_toa_all_a(N, M3(x), M3(x + 9), x + 18, M3(a), M3(a + 9), a + 18, x + 21, x + 24, a + 21, a + 24, y, y + 3, b, b + 3, W_()); }
static void boa_f(D_ x, D_ y, T_ t) { radiance_boa_all(N, 0, M3(x), M3(x + 9), M3(x + 18), x + 27, 0, 0, 0, 0, x + 30, x + 33, 0, 0, y, y + 3, 0, 0, 0, t, W_()); }
static void boa_a(D_ x, D_ a, D_ y, D_ b, T_ t) { radiance_boa_all_a(N, M3(x), M3(x + 9), M3(x + 18), x + 27, M3(a), M3(a + 9), M3(a + 18), a + 27, x + 30, x + 33, a + 30, a + 33, y, y + 3, b, b + 3, t, W_()); }
/* adding: R12 T12 S12 R21 T21 S21 R23 S32 t | R12 T12 S12 R21 T21 S21 R23 T23 S23 R32 T32 S32 */
static void ref_f(D_ x, D_ y, T_ t) { layer_add_ref(M3(x), M3(x + 9), x + 18, M3(x + 21), M3(x + 30), x + 39, M3(x + 42), x + 51, M3(y), y + 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, N, 0, x[54], 0, 0, 0, 1, t, W_());
  if (q3) memset(y, 0, 9 * sizeof *y); }
static void ref_a(D_ x, D_ a, D_ y, D_ b, T_ t) { layer_add_ref_a(M3(x), M3(x + 9), x + 18, M3(x + 21), M3(x + 30), x + 39, M3(x + 42), x + 51, M3(y), y + 9, M3(a), M3(a + 9), a + 18, M3(a + 21), M3(a + 30), a + 39, M3(a + 42), a + 51, M3(b), b + 9, N, x[54], a + 54, q1, q2, 1, t, W_());
  if (q3) memset(b, 0, 9 * sizeof *b); }
static void all_f(D_ x, D_ y, T_ t) { layer_add_all(M3(x), M3(x + 9), x + 18, M3(x + 21), M3(x + 30), x + 39, M3(x + 42), M3(x + 51), x + 60, M3(x + 63), M3(x + 72), x + 81, M3(y), M3(y + 9), y + 18, M3(y + 21), M3(y + 30), y + 39,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, N, 0, 1., 0, 0, 1, t, W_()); }
static void all_a(D_ x, D_ a, D_ y, D_ b, T_ t) { double ta = 0; layer_add_all_a(M3(x), M3(x + 9), x + 18, M3(x + 21), M3(x + 30), x + 39, M3(x + 42), M3(x + 51), x + 60, M3(x + 63), M3(x + 72), x + 81, M3(y), M3(y + 9), y + 18, M3(y + 21), M3(y + 30), y + 39,
  M3(a), M3(a + 9), a + 18, M3(a + 21), M3(a + 30), a + 39, M3(a + 42), M3(a + 51), a + 60, M3(a + 63), M3(a + 72), a + 81, M3(b), M3(b + 9), b + 18, M3(b + 21), M3(b + 30), b + 39, N, 1., &ta, q1, t, W_()); }
/* operators */
static void txr_f(D_ x, D_ y, T_ t) { build_txr(q1, q2, 0, M3(x), M3(x + 9), M3(y), M3(y + 9), 0, 0, 0, 0, 0, W_()); }
static void txr_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_txr_a(q1, q2, M3(x), M3(x + 9), M3(y), M3(y + 9), M3(a), M3(a + 9), M3(b), M3(b + 9), W_()); }
static void gam_f(D_ x, D_ y, T_ t) { build_gamma(N, 0, M3(x), M3(x + 9), M3(y), 0, 0, 0, 0, W_()); }
static void gam_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_gamma_a(N, M3(x), M3(x + 9), M3(y), M3(a), M3(a + 9), M3(b), W_()); }
static double qx[6] = {.2, .55, .9, .31, .66, .77}, qw[6] = {.3, .5, .2, .4, .1, .6};
static void loc_f(D_ x, D_ y, T_ t) { build_local_r_and_t(q1, N, 0, qx, qw, x[0], 0, M3(x + 1), M3(x + 10), M3(y), M3(y + 9), 0, 0, 0, 0, 0, W_()); }
static void loc_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_local_r_and_t_a(q1, N, qx, qw, x[0], a, M3(x + 1), M3(x + 10), M3(y), M3(y + 9), M3(a + 1), M3(a + 10), M3(b), M3(b + 9), W_()); }
/* sources: t R_p T_p F_p F_m [R_m T_m] */
static void gs_f(D_ x, D_ y, T_ t) { build_global_source_solar(N, 0, x[0], 0, M3(x + 1), M3(x + 10), x + 19, x + 22, y, y + 3, 0, 0, 0, 0, 0, 0, 0, 0, W_(), 0, 0, 0, 0); }
static void gs_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_global_source_a(N, x[0], a, M3(x + 1), M3(x + 10), x + 19, x + 22, y, y + 3, M3(a + 1), M3(a + 10), a + 19, a + 22, b, b + 3, W_()); }
static void g2_f(D_ x, D_ y, T_ t) { build_global_source_solar2(N, 0, x[0], 0, M3(x + 1), M3(x + 10), M3(x + 25), M3(x + 34), x + 19, x + 22, y, y + 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, W_(), 0, 0, 0, 0); }
static void g2_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_global_source_a2(N, x[0], a, M3(x + 1), M3(x + 10), M3(x + 25), M3(x + 34), x + 19, x + 22, y, y + 3, M3(a + 1), M3(a + 10), M3(a + 25), M3(a + 34), a + 19, a + 22, b, b + 3, W_()); }
static void sc_f(D_ x, D_ y, T_ t) { scale_source_vectors_solar(N, 0, x[0], 0, x + 1, x + 4, y, y + 3, 0, 0, 0, 0, 0, 0, W_()); }
static void sc_a(D_ x, D_ a, D_ y, D_ b, T_ t) { scale_source_vectors_a(N, x[0], a, x + 1, x + 4, y, y + 3, a + 1, a + 4, b, b + 3, W_()); }
/* omega as P_mm 3 P_pm 3 tpr tmr gamma */
static void s1_f(D_ x, D_ y, T_ t) { build_source_vectors_solar_classic_1n(q1, q2, 0, qx, 1.3, x[0], 0, x[1] + 1, 0, x + 2, x + 5, M3(x + 8), M3(x + 17), M3(x + 26), y, y + 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, t, W_()); }
static void s1_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_source_vectors_1n_a(q1, q2, qx, 1.3, x[0], a, x[1] + 1, a + 1, x + 2, x + 5, M3(x + 8), M3(x + 17), M3(x + 26), y, y + 3, a + 2, a + 5, M3(a + 8), M3(a + 17), M3(a + 26), b, b + 3, t, W_()); }
/* delta-M: f omega ltau coef[6][5] -> omega' ltau' coef'[6][5] */
#define NC 5
static void dm_f(D_ x, D_ y, T_ t) { delta_m(NC, 0, x[0], 0, M(x + 3, 6, NC), M(y + 2, 6, NC), x[1], y, x[2], y + 1, 0, 0, 0, 0, 0, 0, q1, q2, 0); }
static void dm_a(D_ x, D_ a, D_ y, D_ b, T_ t) { delta_m_a(NC, x[0], a, M(x + 3, 6, NC), x[1], x[2], M(a + 3, 6, NC), M(b + 2, 6, NC), a + 1, b, a + 2, b + 1, q1, q2); }
static void dc_f(D_ x, D_ y, T_ t) { delta_m_coef(NC, 0, x[0], 0, M(x + 1, 6, NC), M(y, 6, NC), 0, 0, q1, q2, 0); }
static void dc_a(D_ x, D_ a, D_ y, D_ b, T_ t) { delta_m_coef_a(NC, x[0], a, M(x + 1, 6, NC), M(a + 1, 6, NC), M(b, 6, NC), q1, q2); }
static void do_f(D_ x, D_ y, T_ t) { delta_m_omega(0, x[0], 0, x[1], y, 0, 0, 0); }
static void do_a(D_ x, D_ a, D_ y, D_ b, T_ t) { delta_m_omega_a(x[0], a, x[1], a + 1, b); }
static void dl_f(D_ x, D_ y, T_ t) { delta_m_ltau(0, x[0], 0, x[1], 0, x[2], y, 0, 0, 0); }
static void dl_a(D_ x, D_ a, D_ y, D_ b, T_ t) { delta_m_ltau_a(x[0], a, x[1], a + 1, x[2], a + 2, b); }
static void tm_f(D_ x, D_ y, T_ t) { n_t_tms_scaling(0, x[0], 0, x[1], y, 0, 0); }
static void tm_a(D_ x, D_ a, D_ y, D_ b, T_ t) { n_t_tms_scaling_a(x[0], a, x[1], y[0], a + 1, b[0]); b[0] = 0; }
/* phase functions */
static double Yb[64]; static void pf_f(D_ x, D_ y, T_ t) { phase_func(NC, Yb, x, y); }
static void pf_a(D_ x, D_ a, D_ y, D_ b, T_ t) { phase_func_a(NC, Yb, a, b[0]); b[0] = 0; }
static void pv_f(D_ x, D_ y, T_ t) { build_phase_vecs_scalar(q1, NC, 3, M(Yb, 3, NC), Yb + 20, NC, x, y, y + 3); }
static void pv_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_phase_vecs_scalar_a(q1, NC, 3, M(Yb, 3, NC), Yb + 20, NC, a, b, b + 3); }
static void pm_f(D_ x, D_ y, T_ t) { build_phase_mats_scalar(q1, NC, 3, 2, M(Yb, 3, NC), M(Yb + 20, 2, NC), NC, x, M(y, 3, 2), M(y + 6, 3, 2)); }
static void pm_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_phase_mats_scalar_a(q1, NC, 3, 2, M(Yb, 3, NC), M(Yb + 20, 2, NC), NC, a, M(b, 3, 2), M(b + 6, 3, 2)); }
static void sv_f(D_ x, D_ y, T_ t) { build_scat_vector_gc(NC, q1, M(Yb, 2, NC), M(x, 6, NC), y); }
static void sv_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_scat_vector_gc_a(NC, q1, M(Yb, 2, NC), M(a, 6, NC), b); memset(b, 0, 4 * sizeof *b); }
static double mus[3] = {.23, .61, .88}, mut[2] = {.4, .95};
static void vv_f(D_ x, D_ y, T_ t) { build_phase_vecs_vector_gc(q1, NC, 3, q2, mus, .7, M(x, 6, NC), y, y + 3 * q2, W_()); }
static void vv_a(D_ x, D_ a, D_ y, D_ b, T_ t) { build_phase_vecs_vector_gc_a(q1, NC, 3, q2, mus, .7, M(a, 6, NC), b, b + 3 * q2, W_()); }
static void vm_f(D_ x, D_ y, T_ t) { int k = 6 * q2 * q2; double z[MX], *w = q3 ? y + 2 * k : z; build_phase_mats_vector_gc(q1, NC, 3, 2, q2, mus, mut, M(x, 6, NC), M(y, 3 * q2, 2 * q2), M(y + k, 3 * q2, 2 * q2), M(w, 3 * q2, 2 * q2), M(w + k, 3 * q2, 2 * q2), q3, W_()); }
static void vm_a(D_ x, D_ a, D_ y, D_ b, T_ t) { int k = 6 * q2 * q2; double z[MX] = {0}, *w = q3 ? b + 2 * k : z; build_phase_mats_vector_gc_a(q1, NC, 3, 2, q2, mus, mut, M(a, 6, NC), M(b, 3 * q2, 2 * q2), M(b + k, 3 * q2, 2 * q2), M(w, 3 * q2, 2 * q2), M(w + k, 3 * q2, 2 * q2), q3, W_()); }
static char vb[MX]; static void act(int o, int n, int on) { memset(vb + o, on ? '1' : '0', n); }
int main(void) { int i, j, k, r = 0; for (i = 0; i < 64; i++) Yb[i] = U_() * 3 - .3;
#define RUN(...) do { rt R = {__VA_ARGS__}; int z; for (z = 0; z < 2; z++) if (test(R)) { r = 1; goto out; } } while (0)
  RUN("radiance_slab_a", 27, 3, slab_f, slab_a); RUN("radiance_toa_ref_a", 15, 3, toar_f, toar_a, 1); RUN("radiance_toa_all_a", 27, 6, toa_f, toa_a, 1); RUN("radiance_boa_all_a", 36, 6, boa_f, boa_a, 1);
  { static const char *c[8] = {"US", "SU", "SS", "UB", "BU", "SB", "BS", "BB"}; static int v[8] = {ADDING_U_S, ADDING_S_U, ADDING_S_S, ADDING_U_B, ADDING_B_U, ADDING_S_B, ADDING_B_S, ADDING_B_B};
    for (i = 0; i < 8; i++) for (j = 0; j < 2; j++) { char u = c[i][j], l = c[i][1 - j]; q1 = v[i]; q2 = j; q3 = u != 'B' && l != 'B';
      act(0, 18, u == 'B'); act(18, 3, u != 'U'); act(21, 18, u == 'B'); act(39, 3, u != 'U'); act(42, 9, l == 'B'); act(51, 3, l != 'U'); vb[54] = u == 'B' ? '1' : '-';
      RUN("layer_add_ref_a", 55, 12, ref_f, ref_a, 0, vb); } q2 = q3 = 0; }
  { static int v[3] = {ADDING_U_B, ADDING_B_S, ADDING_B_B};
    for (i = 0; i < 3; i++) { q1 = v[i]; act(0, 42, i != 0); act(42, 42, i != 1); if (i == 1) { act(60, 3, 1); act(81, 3, 1); } RUN("layer_add_all_a", 84, 42, all_f, all_a, 0, vb); } }
  for (q2 = 1; q2 <= 3; q2 += 2) { q1 = 3 / q2; RUN("build_txr_a", 18, 18, txr_f, txr_a); RUN("build_source_vectors_1n_a", 35, 6, s1_f, s1_a); }
  q2 = 0; RUN("build_gamma_a", 18, 9, gam_f, gam_a); for (q1 = 0; q1 < 3; q1++) RUN("build_local_r_and_t_a", 19, 18, loc_f, loc_a);
  RUN("build_global_source_a", 25, 6, gs_f, gs_a); RUN("build_global_source_a2", 43, 6, g2_f, g2_a); RUN("scale_source_vectors_a", 7, 6, sc_f, sc_a);
  for (i = 0; i < 3; i++) { q1 = i > 0; q2 = i == 2 ? SCAT_COEF_GC : SCAT_COEF_LC; if (i < 2 && 0) q2 = 0; k = q1 ? 6 * NC : NC; RUN("delta_m_coef_a", 1 + k, k, dc_f, dc_a); RUN("delta_m_a", 3 + k, 2 + k, dm_f, dm_a); }
  RUN("delta_m_omega_a", 2, 1, do_f, do_a); RUN("delta_m_ltau_a", 3, 1, dl_f, dl_a); RUN("n_t_tms_scaling_a", 2, 1, tm_f, tm_a);
  RUN("phase_func_a", NC, 1, pf_f, pf_a); for (q1 = 0; q1 <= NC + 1; q1++) { RUN("build_phase_vecs_scalar_a", NC, 6, pv_f, pv_a); RUN("build_phase_mats_scalar_a", NC, 12, pm_f, pm_a); }
  for (q1 = 1; q1 <= 4; q1++) RUN("build_scat_vector_gc_a", 6 * NC, q1, sv_f, sv_a);
  for (q2 = 1; q2 <= 4; q2++) for (q1 = 0; q1 <= NC + 1; q1++) { RUN("build_phase_vecs_vector_gc_a", 6 * NC, 6 * q2, vv_f, vv_a); for (q3 = 0; q3 < 2; q3++) RUN("build_phase_mats_vector_gc_a", 6 * NC, (12 + 12 * q3) * q2 * q2, vm_f, vm_a); q3 = 0; }
  out: return r; }
