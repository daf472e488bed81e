/* Surface kernels on the real code: derivatives against central differences, angle tables, kernel sums and azimuth expansion. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "xrtm_brdf.c"
#define ND 2
static double u(void) { return (rand() % 10000) / 10000.; }
static int bad(const char *w, int a, int b, int c, double x, double y) { printf("FAIL %s kernel %d (%d, %d): %.12g expected %.12g\n", w, a, b, c, x, y); return 1; }
static int off(double x, double y, double tol) { return !(fabs(x - y) <= tol * (1 + fabs(y))); }
enum { NQ = 4, NK = 3, NKER = 3 };
static double qx[NQ] = {.2, .45, .7, .9}, kq[NK] = {.3, 1.2, 2.5}, kw[NK] = {.9, 1.1, 1.2};
static uchar dstore[2][64];
static brdf_aux_data aux;
static void par(int t, double *p, double **p_l) { int m, l; for (m = 0; m < 4; m++) { p[m] = .1 + .7 * u(); for (l = 0; l < ND; l++) p_l[l][m] = rand() % 2 ? u() - .5 : 0; } if (t == XRTM_KERNEL_COX_MUNK) p[1] += 1; }
static double val(int geom, int t, int i, int j, int k, double phi, uchar *d, double *p, double **p_l, double *f_l) { kernel_aux_data a2; memset(&a2, 0, sizeof(a2)); if (brdf_needs_fourier((enum xrtm_kernel_type *) &t, 1)) call_aux_func(&aux, &a2, t, i, j, d ? ND : 0, d, p, p_l, NULL); return call_kernel_func(&aux, &a2, geom, t, i, j, k, phi, d ? ND : 0, d, p, p_l, NULL, f_l); }
static double published(int geom, int t, int i, int j, int k, double phi, double *p) { double ci = aux.cos_theta[i], cj = aux.cos_theta[j], ti = aux.tan_theta[i], tj = aux.tan_theta[j], cp = aux.cos_phi[k], sp = aux.sin_phi[k], pi = acos(-1.);
 double cx = ci * cj + aux.sin_theta[i] * aux.sin_theta[j] * cp, xi = acos(cx), gap = sqrt(ti * ti + tj * tj - 2 * ti * tj * cp), n = (pi / 2 - xi) * cx + sin(xi), a, b, c, l, q, g, R, T;
 switch (t) { case XRTM_KERNEL_LAMBERTIAN: return 1; case XRTM_KERNEL_ROUJEAN: return ((pi - fabs(phi)) * cp + sp) * ti * tj / (2 * pi) - (ti + tj + gap) / pi;
 case XRTM_KERNEL_DIRECT_AND_DIFFUSE: return p[geom == XRTM_BRDF_GEOMETRY_QQ ? 3 : geom == XRTM_BRDF_GEOMETRY_Q0 ? 1 : geom == XRTM_BRDF_GEOMETRY_UQ ? 2 : 0];
 case XRTM_KERNEL_ROSS_THIN: return n / (ci * cj) - pi / 2; case XRTM_KERNEL_ROSS_THICK: return n / (ci + cj) - pi / 4;
 case XRTM_KERNEL_HAPKE: g = sqrt(1 - p[0]); b = p[1] * p[2] / (p[2] + tan(xi / 2)); return p[0] / (4 * (ci + cj)) * ((1 + b) * (1 + cx / 2) + (1 + 2 * ci) / (1 + 2 * ci * g) * (1 + 2 * cj) / (1 + 2 * cj * g) - 1);
 case XRTM_KERNEL_RAHMAN: a = 1 + p[1] * p[1] + 2 * p[1] * cx; return p[0] * (1 - p[1] * p[1]) / pow(a, 1.5) * (1 + (1 - p[0]) / (1 + gap)) * pow(ci * cj * (ci + cj), p[2] - 1);
 case XRTM_KERNEL_COX_MUNK: l = cos(xi / 2); q = sqrt(p[1] + l * l - 1); a = (p[1] * l - q) / (p[1] * l + q); b = (l - q) / (l + q); R = (a * a + b * b) / 2; g = (ci + cj) / 2 / l; T = tan(pi / 2 - asin(g)); return R * exp(-T * T / p[0]) / (4 * ci * cj * pi * p[0] * g * g * g * g); }
 return NAN; }
static int tables(void) {
 int part, i; double mu[NQ + 1]; brdf_aux_data a; brdf_aux_alloc(&a, NQ, NK);
 for (part = 0; part < 3; part++) { int lo = part == 1 ? 2 : 0; double q2[NQ], k2[NK];
  for (i = 0; i < NQ; i++) q2[i] = .05 + .9 * u(); for (i = 0; i < NK; i++) k2[i] = 3 * u();
  if (part == 0) { brdf_aux_calc_base(&a, NQ, q2, NK, k2); for (i = 0; i < NQ; i++) mu[i] = q2[i]; for (i = 0; i < NK; i++) if (off(a.cos_phi[i], cos(k2[i]), 1e-12) || off(a.sin_phi[i], sin(k2[i]), 1e-12) || off(a.sin_phi2[i], sin(k2[i]) * sin(k2[i]), 1e-12)) return bad("azimuth table", -1, i, 0, a.cos_phi[i], cos(k2[i])); }
  else if (part == 1) { brdf_aux_calc_part(&a, lo, NQ, q2, NK, k2); for (i = lo; i < NQ; i++) mu[i] = q2[i]; }
  else { mu[NQ] = .1 + .8 * u(); brdf_aux_calc_mu_0(&a, NQ, mu[NQ], NK, k2); }
  for (i = 0; i < NQ + (part == 2); i++) { double s = sqrt(1 - mu[i] * mu[i]), t = s / mu[i];
   if (off(a.cos_theta[i], mu[i], 1e-12)) return bad("cosine table", -1, part, i, a.cos_theta[i], mu[i]); if (off(a.sin_theta[i], s, 1e-12)) return bad("sine table", -1, part, i, a.sin_theta[i], s);
   if (off(a.tan_theta[i], t, 1e-12)) return bad("tangent table", -1, part, i, a.tan_theta[i], t); if (off(a.tan_theta2[i], t * t, 1e-12)) return bad("tangent table 2", -1, part, i, a.tan_theta2[i], t * t); } }
 return 0; }
static uchar *flags(void) { static uchar **f; int i; if (!f) { f = flags_alloc2(2, ND); } for (i = 0; i < ND; i++) f[0][i] = rand() % 3 > 0; flags_fill_meta(f[0], ND); return f[0]; }
int main(void) { int t, c, l, i, j, k; double **p_l = alloc_array2_d(ND, 4);
 srand(1); if (tables()) return 1;
 brdf_aux_alloc(&aux, NQ, NK); brdf_aux_calc_base(&aux, NQ, qx, NK, kq); brdf_aux_calc_mu_0(&aux, NQ, .62, NK, kq);
 for (t = 0; t < N_XRTM_KERNEL_TYPES; t++) if (t != XRTM_KERNEL_USER_DEFINED) for (c = 0; c < 400; c++) { double p[4], q[4], f_l[ND], s, f, h = 1e-5; uchar *d = flags(); int m, geom = rand() % 4; i = rand() % (NQ + 1); j = rand() % (NQ + 1); k = rand() % NK; double phi = rand() % 2 ? kq[k] : -kq[k];
  par(t, p, p_l); for (l = 0; l < ND; l++) f_l[l] = 777; f = val(geom, t, i, j, k, phi, d, p, p_l, f_l);
  { double w = published(geom, t, i, j, k, phi, p); if (w == w && off(f, w, 1e-9)) return bad("value", t, i, j, f, w); }
  if (!brdf_needs_fourier((enum xrtm_kernel_type *) &t, 1) && val(geom, t, i, j, (k + 1) % NK, .7, d, p, p_l, f_l) != f) return bad("azimuth dependence", t, i, j, f, 0);
  for (l = 0; l < ND; l++) if (d[l]) { double s2; for (m = 0; m < 4; m++) q[m] = p[m] + h * p_l[l][m]; s = val(geom, t, i, j, k, phi, NULL, q, NULL, NULL); for (m = 0; m < 4; m++) q[m] = p[m] - h * p_l[l][m]; s2 = s; s -= val(geom, t, i, j, k, phi, NULL, q, NULL, NULL); s /= 2 * h;
   (void) s2; if (off(f_l[l], s, 1e-4)) return bad("derivative", t, i, j, f_l[l], s); } }
 /* sums over kernels */
 for (c = 0; c < 60; c++) { enum xrtm_kernel_type ks[NKER]; double amp[NKER], **amp_l = alloc_array2_d(NKER, ND), **P = alloc_array2_d(NKER, 4), ***P_l = alloc_array3_d(NKER, ND, 4), **f1 = alloc_array2_d(2*NK+1, NQ), ***f1_l = alloc_array3_d(ND, 2*NK+1, NQ), ***f2 = alloc_array3_d(2*NK+1, NQ, 2), ****f2_l = alloc_array4_d(ND, 2*NK+1, NQ, 2);
  brdf_kernel_func_data func[NKER]; work_data work; uchar *d = flags(); int nk = 1 + c % NKER, geom = c % 4, m, i_four, ns = 1 + (c / 2) % 3; double *R, **RM, qw[16], qv[16];
  work_init(&work, NQ, NQ, 4, ND, 2, 0); memset(func, 0, sizeof(func));
  for (i = 0; i < nk; i++) { ks[i] = rand() % 10; par(ks[i], P[i], P_l[i]); amp[i] = u(); for (l = 0; l < ND; l++) amp_l[i][l] = u() - .5; }
  brdf_build_kernel_vecs(0, NQ, NQ, ns, ND, nk, NK, ks, amp, amp_l, P, P_l, func, kq, kw, &aux, geom, f1, f1_l, d, work);
  brdf_build_kernel_mats(0, NQ, 1, 2, ns, ND, nk, NK, ks, amp, amp_l, P, P_l, func, kq, kw, &aux, geom, f2, f2_l, d, work);
  for (j = -1; j < 2; j++) for (i = 0; i < NQ; i++) for (m = 0; m < 2*NK+1; m++) { double s = 0, s_l[ND] = {0}, f_l[ND]; int n;
   for (n = 0; n < nk; n++) if (brdf_needs_fourier(ks + n, 1) == (m > 0)) { int kk = m == 0 ? 0 : (m - 1) % NK; double f = val(geom, ks[n], j < 0 ? NQ : 1 + j, i, kk, m == 0 ? 0 : m > NK ? -kq[kk] : kq[kk], d, P[n], P_l[n], f_l); s += amp[n] * f; for (l = 0; l < ND; l++) if (d[l]) s_l[l] += amp[n] * f_l[l] + amp_l[n][l] * f; }
   if (off(j < 0 ? f1[m][i] : f2[m][i][j], s, 1e-9)) return bad("kernel sum", ks[0], j, m, j < 0 ? f1[m][i] : f2[m][i][j], s);
   for (l = 0; l < ND; l++) if (d[l] && off(j < 0 ? f1_l[l][m][i] : f2_l[l][m][i][j], s_l[l], 1e-9)) return bad("kernel sum derivative", ks[0], j, m, j < 0 ? f1_l[l][m][i] : f2_l[l][m][i][j], s_l[l]); }
  for (i = 0; i < 16; i++) { qw[i] = .1 + u(); qv[i] = .1 + u(); }
  R = alloc_array1_d(NQ * ns); RM = alloc_array2_d(NQ * ns, 2 * ns); m = brdf_needs_fourier(ks, nk);
  for (i_four = 0; i_four < (m ? 3 : 1); i_four++) for (j = -1; j < 2; j++) { int x, y;
   for (x = 0; x < NQ * ns; x++) { R[x] = 1e5; for (y = 0; y < 2 * ns; y++) RM[x][y] = 1e5; }
   brdf_build_ref_vec(i_four, 0, NQ, NQ, ns, .37, qv, qw, nk, NK, ks, kq, kw, f1, R, work); brdf_build_ref_mat(i_four, 0, NQ, 1, 2, ns, .37, qv, qw, nk, NK, ks, kq, kw, f2, RM, work);
   for (x = 0; x < NQ * ns; x++) for (y = 0; y < (j < 0 ? 1 : ns); y++) { double s = 0, v = j < 0 ? R[x] : RM[x][j * ns + y]; i = x / ns;
    if (x % ns == 0 && y == 0) { if (i_four == 0) s = j < 0 ? f1[0][i] : f2[0][i][j]; for (k = 0; k < NK; k++) s += kw[k] * cos(i_four * kq[k]) / 2 * (j < 0 ? f1[1+k][i] + f1[1+NK+k][i] : f2[1+k][i][j] + f2[1+NK+k][i][j]); s *= j < 0 ? (i_four ? 2 : 1) : 2 * .37 * qv[(1 + j) * ns] * qw[(1 + j) * ns]; }
    if (off(v, s, 1e-9)) return bad("azimuth term", i_four, x, j, v, s); } } }
 printf("ok\n"); return 0; }
