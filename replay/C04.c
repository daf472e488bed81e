/* every name and code of every family, and names and codes next to them, through the lookup functions of the real code */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
#include <xrtm_brdf.h>
#include <xrtm_fd_interface.h>
#include <xrtm_eig_util.h>
typedef struct { const char *n; unsigned v; } E_t;
typedef struct { const char *fam; int mask, n; E_t *e; int (*cnt)(); const char *(*i2n)(int); int (*n2i)(const char *); int (*i2v)(int); int (*v2i)(int); int (*n2v)(const char *); const char *(*v2n)(int);
     char *(*nl)(int, char *, int); int (*ln)(char *); int (*il)(int, int *, int); int (*vl)(int, long *, int); int (*lv)(long *, int); } F_t;
#define E(a, b) {a, b}
#define X(f, s) extern void f##__##s() __asm__(#f #s);
#define TAB(f, m, c, ...) X(f, _n) X(f, _index_to_name) X(f, _name_to_index) X(f, _index_to_##c) X(f, _##c##_to_index) X(f, _name_to_##c) X(f, _##c##_to_name) static E_t f##_T[] = {__VA_ARGS__}; static F_t f##_F(void) { F_t F = {#f, m, sizeof(f##_T) / sizeof(E_t), f##_T, (void *) f##___n, (void *) f##___index_to_name, (void *) f##___name_to_index, (void *) f##___index_to_##c, (void *) f##___##c##_to_index, (void *) f##___name_to_##c, (void *) f##___##c##_to_name}; return F; }
#define VALUES(f, ...) TAB(f, 0, value, __VA_ARGS__)
#define MASKS(f, ...) TAB(f, 1, mask, __VA_ARGS__) X(f, _mask_to_name_list) X(f, _name_list_to_mask) X(f, _mask_to_index_list) X(f, _mask_to_value_list) X(f, _value_list_to_mask) \
 static F_t f##_G(void) { F_t F = f##_F(); F.nl = (void *) f##___mask_to_name_list; F.ln = (void *) f##___name_list_to_mask; F.il = (void *) f##___mask_to_index_list; F.vl = (void *) f##___mask_to_value_list; F.lv = (void *) f##___value_list_to_mask; return F; }
MASKS(xrtm_option, E("calc_derivs", XRTM_OPTION_CALC_DERIVS), E("reverse_derivs", XRTM_OPTION_REVERSE_DERIVS), E("delta_m", XRTM_OPTION_DELTA_M), E("n_t_tms", XRTM_OPTION_N_T_TMS), E("four_conv_old", XRTM_OPTION_FOUR_CONV_OLD), E("four_conv_new", XRTM_OPTION_FOUR_CONV_NEW), E("no_azimuthal", XRTM_OPTION_NO_AZIMUTHAL), E("output_at_levels", XRTM_OPTION_OUTPUT_AT_LEVELS), E("output_at_taus", XRTM_OPTION_OUTPUT_AT_TAUS), E("part_sol_classical", XRTM_OPTION_PART_SOL_CLASSICAL), E("part_sol_greens", XRTM_OPTION_PART_SOL_GREENS), E("phase_scalar", XRTM_OPTION_PHASE_SCALAR), E("phase_matrix_gc", XRTM_OPTION_PHASE_MATRIX_GC), E("phase_matrix_lc", XRTM_OPTION_PHASE_MATRIX_LC), E("psa", XRTM_OPTION_PSA), E("quad_norm_gaus_leg", XRTM_OPTION_QUAD_NORM_GAUS_LEG), E("quad_doub_gaus_leg", XRTM_OPTION_QUAD_DOUB_GAUS_LEG), E("quad_lobatto", XRTM_OPTION_QUAD_LOBATTO), E("save_leg_polys", XRTM_OPTION_SAVE_LEG_POLYS), E("save_phase_mats", XRTM_OPTION_SAVE_PHASE_MATS), E("save_local_r_t", XRTM_OPTION_SAVE_LOCAL_R_T), E("save_layer_r_t_s", XRTM_OPTION_SAVE_LAYER_R_T_S), E("save_total_r_t_s", XRTM_OPTION_SAVE_TOTAL_R_T_S), E("sfi", XRTM_OPTION_SFI), E("source_solar", XRTM_OPTION_SOURCE_SOLAR), E("source_thermal", XRTM_OPTION_SOURCE_THERMAL), E("stack_reuse_adding", XRTM_OPTION_STACK_REUSE_ADDING), E("top_down_adding", XRTM_OPTION_TOP_DOWN_ADDING), E("bottom_up_adding", XRTM_OPTION_BOTTOM_UP_ADDING), E("upwelling_output", XRTM_OPTION_UPWELLING_OUTPUT), E("downwelling_output", XRTM_OPTION_DOWNWELLING_OUTPUT), E("vector", XRTM_OPTION_VECTOR))
MASKS(xrtm_solver, E("doub_add", XRTM_SOLVER_DOUB_ADD), E("eig_add", XRTM_SOLVER_EIG_ADD), E("eig_bvp", XRTM_SOLVER_EIG_BVP), E("four_stream", XRTM_SOLVER_FOUR_STREAM), E("mem_bvp", XRTM_SOLVER_MEM_BVP), E("pade_add", XRTM_SOLVER_PADE_ADD), E("single", XRTM_SOLVER_SINGLE), E("six_stream", XRTM_SOLVER_SIX_STREAM), E("sos", XRTM_SOLVER_SOS), E("two_os", XRTM_SOLVER_TWO_OS), E("two_stream", XRTM_SOLVER_TWO_STREAM))
MASKS(xrtm_output, E("radiance", XRTM_OUTPUT_RADIANCE), E("radiance_mean", XRTM_OUTPUT_RADIANCE_MEAN), E("flux", XRTM_OUTPUT_FLUX), E("flux_divergence", XRTM_OUTPUT_FLUX_DIVERGENCE))
VALUES(xrtm_kernel, E("lambertian", XRTM_KERNEL_LAMBERTIAN), E("direct_and_diffuse", XRTM_KERNEL_DIRECT_AND_DIFFUSE), E("roujean", XRTM_KERNEL_ROUJEAN), E("li_sparse", XRTM_KERNEL_LI_SPARSE), E("li_dense", XRTM_KERNEL_LI_DENSE), E("ross_thin", XRTM_KERNEL_ROSS_THIN), E("ross_thick", XRTM_KERNEL_ROSS_THICK), E("hapke", XRTM_KERNEL_HAPKE), E("rahman", XRTM_KERNEL_RAHMAN), E("cox_munk", XRTM_KERNEL_COX_MUNK), E("user_defined", XRTM_KERNEL_USER_DEFINED))
VALUES(xrtm_fd_method, E("forward", XRTM_FD_METHOD_FORWARD), E("backward", XRTM_FD_METHOD_BACKWARD), E("central", XRTM_FD_METHOD_CENTRAL))
VALUES(eigen_solver_gen_real, E("lapack", EIGEN_SOLVER_GEN_REAL_LAPACK))
VALUES(eigen_solver_gen_complex, E("lapack", EIGEN_SOLVER_GEN_COMPLEX_LAPACK))
#define BAD(...) do { printf("%s: ", F.fam); printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
static int fam(F_t F) { int i, j, k, n; char s[100]; const char *t; n = F.cnt(); if (n < F.n) BAD("%d entries, %d expected", n, F.n);
     for (i = 0; i < F.n; i++) { E_t e = F.e[i]; if ((unsigned) F.n2v(e.n) != e.v) BAD("the name %s gives the code %d, not %u", e.n, F.n2v(e.n), e.v); t = F.v2n(e.v); if (!t || strcmp(t, e.n)) BAD("the code %u gives the name %s, not %s", e.v, t ? t : "(none)", e.n);
          k = F.n2i(e.n); if (k < 0 || k >= n || strcmp(F.i2n(k), e.n) || (F.i2v && (unsigned) F.i2v(k) != e.v) || (F.v2i && F.v2i(e.v) != k)) BAD("%s: index %d", e.n, k);
          for (j = 0; j < 5; j++) { int q; strcpy(s, e.n); switch (j) { case 0: strcat(s, "x"); break; case 1: s[strlen(s) - 1] = 0; break; case 2: sprintf(s, "x%s", e.n); break; case 3: for (q = 0; s[q]; q++) s[q] = toupper(s[q]); break; default: s[strlen(s) / 2] = 0; }
               for (q = 0; q < F.n; q++) if (!strcmp(s, F.e[q].n)) break; if (q < F.n) continue; if (F.n2i(s) != -1) BAD("the unknown name \"%s\" has index %d", s, F.n2i(s)); if (F.n2v(s) != -1) BAD("the unknown name \"%s\" has code %d", s, F.n2v(s)); } }
     for (i = -3; i < n + 3; i++) { int q = i; if (i >= 0 && i < n) { if (!F.i2n(i)) BAD("index %d has no name", i); for (q = 0; q < F.n; q++) if (!strcmp(F.i2n(i), F.e[q].n)) break; if (q < F.n && F.i2v && (unsigned) F.i2v(i) != F.e[q].v) BAD("index %d has the name %s and the code %d", i, F.i2n(i), F.i2v(i)); }
          else { if (F.i2n(i)) BAD("index %d has the name %s", i, F.i2n(i)); if (F.i2v && F.i2v(i) != -1) BAD("index %d has the code %d", i, F.i2v(i)); } }
     for (i = -2; i < 4000; i++) { unsigned v = i < 2000 ? (unsigned) i : 1u << (i % 32); for (j = 0; j < F.n; j++) if (F.e[j].v == v) break; if (j < F.n) continue; if (n > F.n) continue; if (F.v2n(v)) BAD("the unknown code %u has the name %s", v, F.v2n(v)); if (F.v2i && F.v2i(v) != -1) BAD("the unknown code %u has index %d", v, F.v2i(v)); }
     if (F.nl && F.ln && F.il && F.vl && F.lv && n == F.n) for (i = 0; i < F.n; i++) for (j = 0; j <= i; j++) { unsigned m = F.e[i].v | F.e[j].v, b; char L[2000], W[300]; int ix[200], c = i == j ? 1 : 2; long vv[200]; int lo = F.n2i(F.e[j].n) < F.n2i(F.e[i].n) ? j : i, hi = i + j - lo; if (i == j) sprintf(W, "%s", F.e[i].n); else sprintf(W, "%s,%s", F.e[lo].n, F.e[hi].n);
          F.nl(m, L, 2000); if (strcmp(L, W)) BAD("mask %u lists \"%s\", not \"%s\"", m, L, W); b = F.ln(L); if (b != m) BAD("\"%s\" gives the mask %u, not %u", W, b, m);
          if (F.il(m, ix, 200) != c || ix[0] != F.n2i(F.e[lo].n) || ix[c-1] != F.n2i(F.e[hi].n)) BAD("mask %u: index list", m); if (F.vl(m, vv, 200) != c || (unsigned) vv[0] != F.e[lo].v || (unsigned) vv[c-1] != F.e[hi].v) BAD("mask %u: code list", m); if ((unsigned) F.lv(vv, c) != m) BAD("mask %u from its codes", m); }
     return 0; }
int main() { if (!freopen("/dev/null", "w", stderr)) return 0; return fam(xrtm_option_G()) || fam(xrtm_solver_G()) || fam(xrtm_output_G()) || fam(xrtm_kernel_F()) || fam(xrtm_fd_method_F()) || fam(eigen_solver_gen_real_F()) || fam(eigen_solver_gen_complex_F()); }
