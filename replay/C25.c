/* phase functions and matrices of the real code against their definitions; the Fourier components against the rotated scattering matrix at random azimuths */
#include "xrtm_scatter.c"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <xrtm_work.h>
#define L 9
#define NM 3
static double u(void) { return (rand() % 100000) / 100000.; }
static int bad(const char *w, int a, int b, int c, double x, double y) { printf("FAIL %s (%d, %d, %d): %.12g expected %.12g\n", w, a, b, c, x, y); return 1; }
#define CK(w, a, b, c, x, y) do { double x_ = (x), y_ = (y); if (!(fabs(x_ - y_) <= 1e-9 * (1 + fabs(y_)))) return bad(w, a, b, c, x_, y_); } while (0)
static double leg(int n, double x) { double a = 1, b = x, t; int i; if (n == 0) return 1; for (i = 2; i <= n; i++) { t = ((2*i-1)*x*b - (i-1)*a)/i; a = b; b = t; } return b; }
/* P_l^m normalised by sqrt((l-m)!/(l+m)!), from the Legendre polynomial's m-th derivative (explicit sum) */
static double plm(int l, int m, double x) { double s = 0, t; int k, q; for (k = 0; 2*k <= l - m; k++) { t = (k & 1 ? -1. : 1.); for (q = 1; q <= 2*l-2*k; q++) t *= q; for (q = 1; q <= k; q++) t /= q; for (q = 1; q <= l-k; q++) t /= q; for (q = 1; q <= l-2*k-m; q++) t /= q; s += t * pow(x, l-2*k-m); }
 s /= pow(2., l); s *= pow(1 - x*x, m/2.); for (q = l-m+1; q <= l+m; q++) s /= sqrt(q); return s; }
static double fac(int n) { double r = 1; while (n > 1) r *= n--; return r; }
/* Wigner d^l_{mn}(theta), Jacobi sum */
static double wig(int l, int m, int n, double x) { double s = 0, c = sqrt((1+x)/2), d = sqrt((1-x)/2); int k; if (l < abs(m) || l < abs(n)) return 0;
 for (k = 0; k <= 2*l; k++) if (l+m-k >= 0 && l-n-k >= 0 && n-m+k >= 0) s += ((n-m+k) & 1 ? -1 : 1) * sqrt(fac(l+m)*fac(l-m)*fac(l+n)*fac(l-n)) / (fac(l+m-k)*fac(k)*fac(n-m+k)*fac(l-n-k)) * pow(c, 2*l-n+m-2*k) * pow(d, n-m+2*k); return s; }
static int polys(void) { int c, l, m, i; double **p = alloc_array2_d(NM, L), **g = alloc_array2_d(4, L), **h[4], mu[NM]; for (i = 0; i < 4; i++) h[i] = alloc_array2_d(NM, L);
 for (c = 0; c < 40; c++) { int n = 1 + c % L; double cn, dn; for (i = 0; i < NM; i++) mu[i] = 1.9 * u() - .95;
  leg_poly(n, mu[0], g[0]); for (l = 0; l < n; l++) CK("leg_poly", n, l, 0, g[0][l], leg(l, mu[0]));
  leg_poly2(NM, n, mu, p); for (i = 0; i < NM; i++) for (l = 0; l < n; l++) CK("leg_poly2", n, l, i, p[i][l], leg(l, mu[i]));
  for (m = 0; m < n; m++) { double e = m & 1 ? -1 : 1; leg_poly_assoc2(m, NM, n, mu, &cn, &dn, p, 1);
   if (m == 0) for (i = 0; i < NM; i++) for (l = 0; l < n; l++) CK("leg_poly_assoc2", m, l, i, p[i][l], leg(l, mu[i]));
   (void) e; }
  { double y[L], cc = 1, dd = 1; for (m = 0; m < n; m++) { leg_poly_assoc2(m, NM, n, mu, &cc, &dd, p, 1); for (i = 0; i < NM; i++) for (l = 0; l < m; l++) CK("leg_poly_assoc2 below order", m, l, i, p[i][l], 0);
    for (i = 0; i < NM; i++) for (l = m; l < n; l++) CK("leg_poly_assoc2", m, l, i, p[i][l] * (m & 1 ? -1 : 1), plm(l, m, mu[i])); } (void) y; }
  if (n >= 3) { gen_spher_funcs_prt(n, mu[0], g[0], g[1], g[2], g[3]); gen_spher_funcs_prt2(NM, n, mu, h[0], h[1], h[2], h[3]);
   for (i = -1; i < NM; i++) for (l = 0; l < n; l++) { double x = mu[i < 0 ? 0 : i]; int q; double r[4]; r[0] = leg(l, x); r[1] = -wig(l, 0, 2, x); r[2] = wig(l, 2, 2, x); r[3] = wig(l, 2, -2, x);
    for (q = 0; q < 4; q++) CK("generalised spherical function", q, l, i, i < 0 ? g[q][l] : h[q][i][l], r[q]); } } }
 return 0; }
static void zref(double x, double y, double phi, double **gc, int n, double Z[4][4]) { double c, s, c1, c2, C1, C2, S1, S2, a[6] = {0}, sx = sqrt(1-x*x), sy = sqrt(1-y*y); int i;
 c = x*y + sx*sy*cos(phi*D2R); s = sqrt(1-c*c);
 c1 = (x - y*c)/(sy*s); c2 = (y - x*c)/(sx*s); C1 = 2*c1*c1-1; C2 = 2*c2*c2-1; S1 = c1*c1 > 1 ? 0 : 2*sqrt(1-c1*c1)*c1; S2 = c2*c2 > 1 ? 0 : 2*sqrt(1-c2*c2)*c2; if (sin(phi*D2R) < 0) { S1 = -S1; S2 = -S2; }
 for (i = 0; i < n; i++) { double p = gc[1][i]+gc[2][i], m = gc[1][i]-gc[2][i], d = -wig(i,0,2,c); a[0] += gc[0][i]*leg(i,c); a[3] += gc[3][i]*leg(i,c); a[4] += gc[4][i]*d; a[5] -= gc[5][i]*d; p *= wig(i,2,2,c); m *= wig(i,2,-2,c); a[1] += (p+m)/2; a[2] += (p-m)/2; }
 Z[0][0]=a[0]; Z[0][1]=C1*a[4]; Z[0][2]=S1*a[4]; Z[0][3]=0; Z[1][0]=C2*a[4]; Z[1][1]=C2*a[1]*C1-S2*a[2]*S1; Z[1][2]=C2*a[1]*S1+S2*a[2]*C1; Z[1][3]=S2*a[5]; Z[2][0]=S2*a[4]; Z[2][1]=S2*a[1]*C1+C2*a[2]*S1; Z[2][2]=-S2*a[1]*S1+C2*a[2]*C1; Z[2][3]=C2*a[5]; Z[3][0]=0; Z[3][1]=-a[5]*S1; Z[3][2]=-a[5]*C1; Z[3][3]=a[3]; }
static int fourier(void) { int c, ns, i, j, m, r, q, s, k; double **gc = alloc_array2_d(6, L), **g = alloc_array2_d(4, L);
 for (c = 0; c < 24; c++) for (ns = 1; ns <= 4; ns++) { int n = 3 + rand() % (L - 2), n1 = 1 + rand() % NM, n2 = 1 + rand() % NM, v1 = n1*ns, v2 = n2*ns; double mu[NM], mv[NM], mu0 = .1 + .85*u(), phi = 360*u(), *pp = alloc_array1_d(v1), *mp = alloc_array1_d(v1), V[2][NM*4], A[4][NM*4][NM*4], **P[4], F[4], S[4], Z[4][4]; work_data w; work_init(&w, NM, NM, 4, 0, 1, 0); 
  if (n > L) n = L; memset(V, 0, sizeof V); memset(A, 0, sizeof A); for (i = 0; i < 4; i++) P[i] = alloc_array2_d(v1, v2);
  for (i = 0; i < 6; i++) for (m = 0; m < L; m++) gc[i][m] = (i == 0 || i == 3 || m > 1) && m < n ? u() - .5 : 0; for (i = 0; i < NM; i++) { mu[i] = .1 + .85*u(); mv[i] = .1 + .85*u(); }
  for (m = 0; m < n + 1; m++) { build_phase_vecs_vector_gc(m, n, n1, ns, mu, mu0, gc, pp, mp, w); build_phase_mats_vector_gc(m, n, n1, n2, ns, mu, mv, gc, P[0], P[1], P[2], P[3], 1, w);
   for (i = 0; i < v1; i++) { double f = i % ns < 2 ? cos(m*phi*D2R) : sin(m*phi*D2R); V[0][i] += pp[i]*f; V[1][i] += mp[i]*f; for (s = 0; s < 4; s++) for (j = 0; j < v2; j++) A[s][i][j] += P[s][i][j] * ((i%ns < 2) == (j%ns < 2) ? cos(m*phi*D2R) : sin(m*phi*D2R)); } }
  for (i = 0; i < n1; i++) { for (s = 0; s < 2; s++) { double x = s ? -mu[i] : mu[i], e = scat_angle(mu0, 30., x, phi + 30.); gen_spher_funcs_prt(n, e, g[0], g[1], g[2], g[3]); build_scat_vector_gc(n, ns, g, gc, F); zref(x, mu0, phi, gc, n, Z);
    scat_vector_rotate_hovenier(ns, mu0, x, e, phi, F, S); for (r = 0; r < ns; r++) { CK("phase vector Fourier sum", ns, s, r, V[s][i*ns+r], Z[r][0]); CK("rotated scattering vector", ns, s, r, r == 2 ? -S[r] : S[r], Z[r][0]); } }
   for (j = 0; j < n2; j++) for (s = 0; s < 4; s++) { zref(s == 1 || s == 2 ? -mu[i] : mu[i], s >= 2 ? -mv[j] : mv[j], phi, gc, n, Z); for (r = 0; r < ns; r++) for (q = 0; q < ns; q++) if (ns > 1 || s < 2 || 1) CK("phase matrix Fourier sum", ns*10+s, r, q, A[s][i*ns+r][j*ns+q], Z[r][q]); } }
  (void) k; free_array1_d(pp); free_array1_d(mp); for (i = 0; i < 4; i++) free_array2_d(P[i]); }
 return 0; }
static int scalar(void) { int c, i, j, m, k; double phi;
 for (c = 0; c < 60; c++) { int n = 2 + rand() % (L - 1), n1 = 1 + rand() % NM, n2 = 1 + rand() % NM; double co[L], pl[L], mu[NM], mv[NM], **Y1 = alloc_array2_d(n1, n), **Y2 = alloc_array2_d(n2, n), **P[2], v[2][NM], V[2][NM], A[2][NM][NM], s, cn[2], dn[2], y[L]; memset(V, 0, sizeof V); memset(A, 0, sizeof A); phi = 360*u();
  P[0] = alloc_array2_d(n1, n2); P[1] = alloc_array2_d(n1, n2); for (i = 0; i < L; i++) co[i] = u() - .5; for (i = 0; i < NM; i++) { mu[i] = .05 + .9*u(); mv[i] = .05 + .9*u(); }
  for (m = 0; m < n; m++) { leg_poly_assoc2(m, n1, n, mu, cn, dn, Y1, 1); leg_poly_assoc2(m, n2, n, mv, cn + 1, dn + 1, Y2, 1);
   build_phase_vecs_scalar(m, n, n1, Y1, Y2[0], n, co, v[0], v[1]); build_phase_mats_scalar(m, n, n1, n2, Y1, Y2, n, co, P[0], P[1]);
   for (i = 0; i < n1; i++) for (k = 0; k < 2; k++) { V[k][i] += v[k][i] * cos(m*phi*D2R); for (j = 0; j < n2; j++) A[k][i][j] += P[k][i][j] * cos(m*phi*D2R); }
   if (m < 2 || n > 7) for (i = 0; i < n1; i++) { if (0) calc_Y_x(m, mu[i], y); } }
  for (i = 0; i < n1; i++) for (k = 0; k < 2; k++) for (j = -1; j < n2; j++) { double x = k ? -mu[i] : mu[i]; leg_poly(n, scat_angle(mv[j < 0 ? 0 : j], 0., x, phi), pl); phase_func(n, pl, co, &s); CK("scalar phase component sum", k, i, j, j < 0 ? V[k][i] : A[k][i][j], s); }
  { double **cc = alloc_array2_d(6, n), F[4], **FM = alloc_array2_d(4, 4); int r, q; for (i = 0; i < 6; i++) for (j = 0; j < n; j++) cc[i][j] = u() - .5; build_scat_matrix_lc(n, pl, cc, FM, c & 1); build_scat_vector_lc(n, 1 + c % 4, pl, cc, F);
   for (r = 0; r < 4; r++) for (q = 0; q < 4; q++) { int z = r == q ? r : r + q == 1 ? 4 : r + q == 5 && r != q && r > 1 && q > 1 ? 5 : -1; s = 0; if (z >= 0 && (z == 0 || c & 1)) for (i = 0; i < n; i++) s += cc[z][i] * pl[i]; if (r == 3 && q == 2) s = -s; CK("scattering matrix", r, q, c & 1, FM[r][q], s); if (q == 0 && r <= c % 4) { s = 0; if (r < 2) for (i = 0; i < n; i++) s += cc[4*r][i] * pl[i]; CK("scattering vector", r, q, 0, F[r], s); } } } }
 return 0; }
#define NQ 3
#define ND 2
static int local(void) { int c, ns, i, j, k; static uchar **d; if (!d) d = flags_alloc2(1, ND);
 for (c = 0; c < 60; c++) for (ns = 1; ns <= 4; ns++) { int n = NQ*ns, m = c % 3, g; double qx[NQ*4], qw[NQ*4], om = u(), oml[ND]; double **M[9], ***Ml[9], f = (m == 0 ? 2 : 1) / 4.; work_data w; work_init(&w, NQ, NQ, ns, ND, 1, 0);
  for (i = 0; i < 9; i++) { M[i] = alloc_array2_d(n, n); Ml[i] = alloc_array3_d(ND, n, n); for (j = 0; j < n*n; j++) { M[i][0][j] = u() - .5; for (k = 0; k < ND; k++) Ml[i][k][0][j] = u() - .5; } }
  for (i = 0; i < n; i++) { qx[i] = .1 + u(); qw[i] = u(); } for (k = 0; k < ND; k++) { oml[k] = u() - .5; d[0][k] = rand() % 2; } flags_fill_meta(d[0], ND);
  build_local_r_and_t(m, n, ND, qx, qw, om, oml, M[0], M[1], M[2], M[3], Ml[0], Ml[1], Ml[2], Ml[3], d[0], w);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { CK("local reflection", ns, i, j, M[2][i][j], -f*om*M[1][i][j]*qw[j]/qx[i]); CK("local transmission", ns, i, j, M[3][i][j], f*om*M[0][i][j]*qw[j]/qx[i] - (i == j)/qx[i]);
   for (k = 0; k < ND; k++) if (d[0][k]) { CK("derivative of the local reflection", ns, i, j, Ml[2][k][i][j], -f*(oml[k]*M[1][i][j]+om*Ml[1][k][i][j])*qw[j]/qx[i]); CK("derivative of the local transmission", ns, i, j, Ml[3][k][i][j], f*(oml[k]*M[0][i][j]+om*Ml[0][k][i][j])*qw[j]/qx[i]); } }
  build_txr(NQ, ns, ND, M[2], M[3], M[4], M[5], Ml[2], Ml[3], Ml[4], Ml[5], d[0], w);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { double s = i % ns >= 2 ? -1 : 1; CK("sum operator", ns, i, j, M[4][i][j], M[3][i][j] + s*M[2][i][j]); CK("difference operator", ns, i, j, M[5][i][j], M[3][i][j] - s*M[2][i][j]);
   for (k = 0; k < ND; k++) if (d[0][k]) { CK("derivative of the sum operator", ns, i, j, Ml[4][k][i][j], Ml[3][k][i][j] + s*Ml[2][k][i][j]); CK("derivative of the difference operator", ns, i, j, Ml[5][k][i][j], Ml[3][k][i][j] - s*Ml[2][k][i][j]); } }
  build_gamma(n, ND, M[4], M[5], M[6], Ml[4], Ml[5], Ml[6], d[0], w);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { double s = 0, t[ND] = {0}; for (g = 0; g < n; g++) { s += M[5][i][g]*M[4][g][j]; for (k = 0; k < ND; k++) t[k] += Ml[5][k][i][g]*M[4][g][j] + M[5][i][g]*Ml[4][k][g][j]; } CK("gamma", ns, i, j, M[6][i][j], s); for (k = 0; k < ND; k++) if (d[0][k]) CK("derivative of gamma", ns, i, j, Ml[6][k][i][j], t[k]); }
  dm_v_mul_D_A(NQ, ns, M[0][0], M[1][0]); for (i = 0; i < n; i++) CK("mirror vector", ns, i, 0, M[1][0][i], (i % ns >= 2 ? -1 : 1) * M[0][0][i]);
  dmat_mul_D_A2(NQ, ns, NQ, ns, M[0], M[1]); for (i = 0; i < n; i++) for (j = 0; j < n; j++) CK("mirror matrix", ns, i, j, M[1][i][j], (i % ns >= 2 ? -1 : 1) * M[0][i][j]);
  phase_matrix_symmetry3(NQ, ns, NQ, ns, M[0], M[2], M[7], M[8], c & 1 ? 1. : -1.);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { double s = (i % ns >= 2 ? -1 : 1) * (j % ns >= 2 ? -1 : 1) * (c & 1 ? 1 : -1); CK("symmetry", ns, i, j, M[7][i][j], s*M[0][i][j]); CK("symmetry", ns, i, j, M[8][i][j], s*M[2][i][j]); }
  for (i = 0; i < 9; i++) { free_array2_d(M[i]); free_array3_d(Ml[i]); } }
 return 0; }
int main(void) { srand(7); if (polys() || scalar() || fourier() || local()) return 1; printf("ok\n"); return 0; }
