/* derivative activity tables of the real code against their definition, for pseudo-random activity patterns */
#include <stdio.h>
#include <stdlib.h>
#include <gutil.h>
#include <xrtm.h>
#include "xrtm_interface.c"
#include <xrtm_adding.h>
#include <xrtm_utility.h>
#include <xrtm_brdf.h>
int rest(void);
#define NL 4
#define ND 7
#define NC 5
static int R(int n) { static unsigned long s = 12345; s = s * 6364136223846793005UL + 1442695040888963407UL; return (int) ((s >> 33) % n); }
static int bad(const char *t, int c, int i, int j, int got, int want) { printf("table %s, case %d, layer %d, derivative %d: %d, expected %d\n", t, c, i, j, got, want); return 1; }
#define T(name, m) (m ? d.derivs.name##_m : d.derivs.name)
#define UN(name, m) (m ? d.derivs.name##_m_union : d.derivs.name##_union)
static int tr(int x) { return x != 0; }
static int one(int opts, int solvers, int kernel, int c) {
     xrtm_data d; enum xrtm_kernel_type K[1]; int i, j, k, m, r = 0, np; K[0] = kernel;
     int base = XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_FOUR_CONV_NEW | XRTM_OPTION_PART_SOL_CLASSICAL | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT | XRTM_OPTION_OUTPUT_AT_LEVELS | opts;
     int sol = tr(opts & XRTM_OPTION_SOURCE_SOLAR), thr = tr(opts & XRTM_OPTION_SOURCE_THERMAL);
     if (xrtm_create(&d, base, solvers, NC, 2, 1, ND, NL, 1, 1, 8, K, 2, 0)) return 0;
     np = kernel_n_params(kernel);
     for (i = 0; i < NL; i++) d.n_coef_layer[i] = 1 + R(NC);
     for (j = 0; j < ND; j++) { for (i = 0; i < NL; i++) { d.ltau0_l[i][j] = R(7) ? 0 : -.1; d.omega0_l[i][j] = R(7) ? 0 : .1; for (k = 0; k < NC; k++) d.coef0_l[i][j][0][k] = k == d.n_coef_layer[i] - 1 && !R(4) ? .3 : 0;
          if (d.n_coef_layer[i] < NC) d.coef0_l[i][j][0][NC-1] = R(2); }
       d.kernel_ampfac_l[0][j] = R(4) ? 0 : 1; for (k = 0; k < np; k++) d.kernel_params_l[0][j][k] = R(5) ? 0 : 1;
       if (thr) { for (i = 0; i <= NL; i++) d.levels_b_l[i][j] = R(6) ? 0 : 1; d.surface_b_l[j] = R(4) ? 0 : 1; } }
     m = d.inputs_initialized; d.inputs_initialized = 0; if (xrtm_update_varied_layers(&d)) { puts("update refused"); return 1; } d.inputs_initialized = m;
     for (m = 0; m < 2 && !r; m++) { int un[8][NL+1] = {{0}};
       for (j = 0; j < ND && !r; j++) { int L[NL+1], B[NL+1], H[NL+1], S[NL+1], tot = 0;
         for (i = 0; i < NL; i++) { L[i] = d.ltau0_l[i][j] != 0 || d.omega0_l[i][j] != 0; for (k = 0; k < d.n_coef_layer[i]; k++) L[i] |= d.coef0_l[i][j][0][k] != 0; }
         L[NL] = d.kernel_ampfac_l[0][j] != 0; for (k = 0; k < np; k++) L[NL] |= d.kernel_params_l[0][j][k] != 0; if (m && !brdf_needs_fourier(K, 1)) L[NL] = 0;
         for (i = 0; i <= NL; i++) { B[i] = H[i] = 0; for (k = 0; k <= i; k++) B[i] |= L[k]; if (thr) H[i] = L[i] || (i < NL ? d.levels_b_l[i][j] != 0 || d.levels_b_l[i+1][j] != 0 : d.surface_b_l[j] != 0); S[i] = (sol && B[i]) || (thr && H[i]); tot |= L[i] || S[i]; }
         if (tr(T(total, m)[0][j]) != tot) r = bad("total", c, 0, j, T(total, m)[0][j], tot);
         for (i = 0; i <= NL && !r; i++) { int dl = 0, ds = 0, ul = 0, us = 0, w, st; 
           for (k = 0; k < i; k++) { dl |= L[k]; ds |= S[k]; } for (k = i + 1; k <= NL; k++) { ul |= L[k]; us |= S[k]; }
           if (tr(T(layers, m)[i][j]) != L[i]) r = bad("layers", c, i, j, T(layers, m)[i][j], L[i]);
           if (sol && tr(T(beam, m)[i][j]) != B[i]) r = bad("beam", c, i, j, T(beam, m)[i][j], B[i]);
           if (thr && tr(T(thermal, m)[i][j]) != H[i]) r = bad("thermal", c, i, j, T(thermal, m)[i][j], H[i]);
           if (tr(T(sources, m)[i][j]) != S[i]) r = bad("sources", c, i, j, T(sources, m)[i][j], S[i]);
           w = dl * 8 + ds * 4 + L[i] * 2 + S[i]; if (T(adding_down, m)[i][j] != w) r = bad("adding_down", c, i, j, T(adding_down, m)[i][j], w); un[0][i] |= w;
           w = L[i] * 8 + S[i] * 4 + ul * 2 + us; if (T(adding_up, m)[i][j] != w) r = bad("adding_up", c, i, j, T(adding_up, m)[i][j], w); un[1][i] |= w;
           st = i == 0 ? (L[0] ? 1 : 0) : (dl ? 5 : 0); if (T(stacks, m)[i][j] != st) r = bad("stacks", c, i, j, T(stacks, m)[i][j], st);
           un[2][i] |= L[i]; un[3][i] |= B[i]; un[4][i] |= H[i]; un[5][i] |= S[i]; un[6][i] |= tr(st); } }
       for (i = 0; i <= NL && !r; i++) { int s = 0, o = 0, a = 1; for (j = 0; j < ND; j++) { int x = tr(T(layers, m)[i][j]); s += x; o |= x; a &= x; }
         if (flags_count(T(layers, m)[i], ND) != s) r = bad("count", c, i, 0, flags_count(T(layers, m)[i], ND), s); if (tr(flags_or(T(layers, m)[i], ND)) != o) r = bad("or", c, i, 0, !o, o); if (tr(flags_and(T(layers, m)[i], ND)) != a) r = bad("and", c, i, 0, !a, a);
         s = o = 0; for (j = 0; j < ND; j++) { int x = tr(T(adding_down, m)[i][j]); s += x; o |= x; } if (flags_count(T(adding_down, m)[i], ND) != s || tr(flags_or(T(adding_down, m)[i], ND)) != o) r = bad("adding_down summary", c, i, 0, -1, s);
         s = o = 0; for (j = 0; j < ND; j++) { int x = tr(T(sources, m)[i][j]); s += x; o |= x; } if (flags_count(T(sources, m)[i], ND) != s || tr(flags_or(T(sources, m)[i], ND)) != o) r = bad("sources summary", c, i, 0, -1, s);
         if (opts & XRTM_OPTION_REVERSE_DERIVS) {
#define U(n, name, f) if (f(UN(name, m)[i]) != un[n][i]) r = bad(#name "_union", c, i, -1, UN(name, m)[i], un[n][i])
           U(0, adding_down, ); U(1, adding_up, ); U(2, layers, tr); if (sol) U(3, beam, tr); if (thr) U(4, thermal, tr); U(5, sources, tr); U(6, stacks, tr); } }
     }
     xrtm_destroy(&d); return r; }
/* the table builders called directly, on any combination of active layers and sources */
static int direct(int c) { xrtm_data d; enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; int i, j, k, n, nl = 1 + c % 5, nd = 1 + c % 4; uchar **L, **S, **O, **Tt;
 if (xrtm_create(&d, XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_FOUR_CONV_NEW | XRTM_OPTION_PART_SOL_CLASSICAL | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR, XRTM_SOLVER_EIG_BVP, 5, 2, 1, nd, nl, 1, 1, 8, K, 2, 0)) return 0;
 L = flags_alloc2(nl + 1, nd); S = flags_alloc2(nl + 1, nd); O = flags_alloc2(nl + 1, nd); Tt = flags_alloc2(1, nd);
 for (n = 0; n < 60; n++) { int q = 1 + R(5); for (i = 0; i <= nl; i++) for (j = 0; j < nd; j++) { L[i][j] = ! R(q); S[i][j] = ! R(q); O[i][j] = 99; } flags_fill_meta2(L, nl + 1, nd); flags_fill_meta2(S, nl + 1, nd);
  for (k = 0; k < 3; k++) { if (k == 0) build_derivs_adding_down(&d, L, S, O); if (k == 1) build_derivs_adding_up(&d, L, S, O); if (k == 2) build_derivs_stacks(&d, L, O);
   for (i = 0; i <= nl; i++) { int cnt = 0; for (j = 0; j < nd; j++) { int dl = 0, ds = 0, ul = 0, us = 0, w, x; for (x = 0; x < i; x++) { dl |= L[x][j]; ds |= S[x][j]; } for (x = i + 1; x <= nl; x++) { ul |= L[x][j]; us |= S[x][j]; }
     w = k == 0 ? dl * 8 + ds * 4 + L[i][j] * 2 + S[i][j] : k == 1 ? L[i][j] * 8 + S[i][j] * 4 + ul * 2 + us : i == 0 ? L[0][j] : dl ? 5 : 0; if (k == 2 && i > 0) { int e = 0; for (x = 0; x < i; x++) e |= L[x][j]; w = e ? 0 : 0; for (x = 0; x < i - 1; x++) if (L[x][j]) w = 5; if (w == 0 && L[i-1][j]) w = i - 1 == 0 ? 5 : 1; }
     if (k < 2 && O[i][j] != w) return bad(k ? "adding_up (direct)" : "adding_down (direct)", c, i, j, O[i][j], w); if (k == 2 && tr(O[i][j]) != tr(dl | (i == 0 && L[0][j]))) return bad("stacks (direct)", c, i, j, O[i][j], dl); cnt += O[i][j] != 0; }
    if (flags_count(O[i], nd) != cnt || tr(flags_or(O[i], nd)) != tr(cnt)) return bad("summary (direct)", c, i, k, flags_count(O[i], nd), cnt); } }
  build_derivs_total(&d, L, S, Tt); for (j = 0; j < nd; j++) { int w = 0; for (i = 0; i <= nl; i++) w |= L[i][j] | S[i][j]; if (tr(Tt[0][j]) != w) return bad("total (direct)", c, 0, j, Tt[0][j], w); }
  build_derivs_beam(&d, L, O); for (i = 0; i <= nl; i++) for (j = 0; j < nd; j++) { int w = 0; for (k = 0; k <= i; k++) w |= L[k][j]; if (tr(O[i][j]) != w) return bad("beam (direct)", c, i, j, O[i][j], w); } }
 xrtm_destroy(&d); return 0; }
int main() { int c0; for (c0 = 0; c0 < 40; c0++) if (direct(c0)) return 1;
 return rest(); }
int rest() { int c, s, k, v; int O[] = {XRTM_OPTION_SOURCE_SOLAR, XRTM_OPTION_SOURCE_THERMAL, XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_SOURCE_THERMAL}; int K[] = {XRTM_KERNEL_LAMBERTIAN, XRTM_KERNEL_LI_DENSE, XRTM_KERNEL_RAHMAN};
     for (c = 0; c < 60; c++) for (s = 0; s < 3; s++) for (k = 0; k < 3; k++) for (v = 0; v < 2; v++) if (one(O[s] | (v ? XRTM_OPTION_REVERSE_DERIVS : 0), XRTM_SOLVER_EIG_BVP, K[k], c)) return 1;
     { int n; for (n = 0; n < 200; n++) { uchar a[ND], b[ND], *o = flags_alloc(ND); int j; for (j = 0; j < ND; j++) { b[j] = R(2); a[j] = b[j] && R(2); } derivs_merge_s(ND, a, b, o);
       for (j = 0; j < ND; j++) if (o[j] != (a[j] ? ADDING_S_S : b[j] ? ADDING_U_S : ADDING_U_U)) return bad("merge", n, 0, j, o[j], 0); flags_free(o); } }
     return 0; }
