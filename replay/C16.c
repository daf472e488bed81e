/* level radiances of the real code against the interaction principle and central differences of it */
#include "mat.h"
#include <xrtm_adding.h>
#include <xrtm_radiance.h>
#define K 6
/* inputs: 0 R (R_m or R12_p), 1 T (T_p or T12_m), 2 Rb (R23_m) matrices; 3 S, 4 Ia, 5 Ib vectors */
typedef struct { mx m[3]; vc v[3]; } st;
typedef struct { vc p, m; } res;
static st rnd(void) { st s; int k; for (k = 0; k < 3; k++) { s.m[k] = mrand(); s.v[k] = vrand(); } return s; }
static st move(st a, double h, st d) { int k; for (k = 0; k < 3; k++) { a.m[k] = maddm(a.m[k], h, d.m[k]); a.v[k] = vadd(a.v[k], h, d.v[k]); } return a; }
enum { SLAB, TOA_REF, BOA_REF, TOA_ALL, BOA_ALL };
static const char *NAME[] = {"radiance_slab", "radiance_toa_ref", "radiance_boa_ref", "radiance_toa_all", "radiance_boa_all"};
static res eval(int f, st s) { res o; o.p = vzero(); o.m = vzero();
  if (f == SLAB || f == TOA_ALL) { o.p = vadd(vadd(mv(s.m[0], s.v[1]), 1, mv(s.m[1], s.v[2])), 1, s.v[0]); o.m = s.v[1]; }
  else if (f == TOA_REF) o.p = vadd(mv(s.m[0], s.v[1]), 1, s.v[0]);
  else { vc r = vadd(mv(s.m[0], s.v[2]), 1, s.v[0]); if (f == BOA_ALL) r = vadd(r, 1, mv(s.m[1], s.v[1])); o.m = mv(minv(maddm(meye(), -1, mmul(s.m[0], s.m[2]))), r); o.p = vadd(mv(s.m[2], o.m), 1, s.v[2]); }
  return o; }
static int one(int f) { st s = rnd(), d[16]; double **m[3], *v[3], **ml[3][16], *vl[3][16], *p, *q, *pl[16], *ql[16]; unsigned char der[16]; int i, k; res o, a, b; work_data w = mkwork(16); save_tree_data none; memset(&none, 0, sizeof none);
  for (k = 0; k < 3; k++) { m[k] = m2p(s.m[k]); v[k] = v2p(s.v[k]); }
  p = v2p(vrand()); q = v2p(vrand());
  for (i = 0; i < 16; i++) { int A, S, B; d[i] = rnd(); der[i] = i; pl[i] = v2p(vrand()); ql[i] = v2p(vrand());
    A = i & DERIV_TOP_L; S = i & DERIV_TOP_S; B = i & DERIV_BOTTOM_L; if (f == TOA_REF) { A = i & (DERIV_TOP_L | DERIV_BOTTOM_L); S = i & (DERIV_TOP_S | DERIV_BOTTOM_S); }
    for (k = 0; k < 3; k++) { ml[k][i] = m2p(d[i].m[k]); vl[k][i] = v2p(d[i].v[k]); }
    if (! A) d[i].m[0] = d[i].m[1] = mzero();
    if (! S) d[i].v[0] = vzero();
    if (! B) d[i].m[2] = mzero(); }
  switch (f) {
  case SLAB: radiance_slab(N, 16, m[0], m[1], v[0], ml[0], ml[1], vl[0], v[1], v[2], vl[1], vl[2], p, pl, der, w); break;
  case TOA_REF: radiance_toa_ref(N, 16, m[0], v[0], ml[0], vl[0], v[1], vl[1], p, pl, der, w); break;
  case BOA_REF: radiance_boa_ref(N, 16, m[0], v[0], ml[0], vl[0], m[2], ml[2], v[2], vl[2], p, pl, q, ql, der, w); break;
  case TOA_ALL: radiance_toa_all(N, 16, m[0], m[1], v[0], ml[0], ml[1], vl[0], v[1], v[2], vl[1], vl[2], p, q, pl, ql, der, w); break;
  default: radiance_boa_all(N, 16, m[0], m[1], m[2], v[0], ml[0], ml[1], ml[2], vl[0], v[2], v[1], vl[2], vl[1], p, q, pl, ql, der, none, w); }
  o = eval(f, s);
  if (vdiffer(p2v(p), o.p, 1e-9) || (f >= BOA_REF && vdiffer(p2v(q), o.m, 1e-9))) { printf("%s: radiances differ from the interaction principle\n", NAME[f]); return 1; }
  for (i = 0; i < 16; i++) { double h = 1e-5; a = eval(f, move(s, h, d[i])); b = eval(f, move(s, -h, d[i])); a.p = vadd(vsc(.5 / h, a.p), -.5 / h, b.p); a.m = vadd(vsc(.5 / h, a.m), -.5 / h, b.m);
    if (vdiffer(p2v(pl[i]), a.p, 1e-6) || (f >= BOA_REF && vdiffer(p2v(ql[i]), a.m, 1e-6))) { printf("%s: derivative %d (combination %c_%c) differs from the central difference\n", NAME[f], i, "USLB"[(i >> 2 & 1) | (i >> 2 & 2)], "USLB"[i & 3]); return 1; } }
  return 0; }
int main(void) { int c, f, i; double x[N], w[N], I[N]; for (c = 0; c < 20; c++) { double a = 0, b = 0; for (f = 0; f < 5; f++) if (one(f)) return 1;
  for (i = 0; i < N; i++) { x[i] = U_(); w[i] = U_(); I[i] = U_(); a += w[i] * I[i] / 2; b += x[i] * w[i] * I[i] * 2 * 3.14159265358979323846; }
  if (fabs(radiance_to_mean(N, x, w, 1., .5, .3, I) - a) > 1e-12) { printf("radiance_to_mean: not half the quadrature sum\n"); return 1; }
  if (fabs(radiance_to_flux(N, x, w, 1., .5, .3, I) - b) > 1e-12) { printf("radiance_to_flux: not 2 pi times the weighted quadrature sum\n"); return 1; } }
  return 0; }
