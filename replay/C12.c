/* adding functions of the real code against the interaction principle and the central differences of it */
#include "mat.h"
#include <xrtm_adding.h>
/* a layer pair: indices R12 T12 S12 R21 T21 S21 R23 T23 S23 R32 T32 S32; matrices in m[], vectors in v[] */
typedef struct { mx m[12]; vc v[12]; double t; } st;
typedef struct { mx R13, T13, R31, T31; vc S13, S31; } res;
enum { R12, T12, S12, R21, T21, S21, R23, T23, S23, R32, T32, S32 };
static int isv(int k) { return k % 3 == 2; }
static res comb(st s) { res o; mx *m = s.m; vc *v = s.v; mx A31 = mmul(m[T21], minv(maddm(meye(), -1, mmul(m[R23], m[R21])))), A13 = mmul(m[T23], minv(maddm(meye(), -1, mmul(m[R21], m[R23]))));
  o.R13 = maddm(m[R12], 1, mmul(mmul(A31, m[R23]), m[T12])); o.T31 = mmul(A31, m[T32]); o.S31 = vadd(v[S21], 1, mv(A31, vadd(vsc(s.t, v[S32]), 1, mv(m[R23], v[S12]))));
  o.R31 = maddm(m[R32], 1, mmul(mmul(A13, m[R21]), m[T32])); o.T13 = mmul(A13, m[T12]); o.S13 = vadd(vsc(s.t, v[S23]), 1, mv(A13, vadd(v[S12], s.t, mv(m[R21], v[S32])))); return o; }
static st rnd(void) { st s; int k; for (k = 0; k < 12; k++) { s.m[k] = mrand(); s.v[k] = vrand(); } s.t = U_() * 3; return s; }
/* move along the derivative d: upper/lower codes U none, S sources, L operators, B both */
static st move(st a, double h, st d, int up, int lo, int tl) { int k; for (k = 0; k < 12; k++) { int c = k < 6 ? up : lo; if (isv(k) ? c & 1 : c & 2) { a.m[k] = maddm(a.m[k], h, d.m[k]); a.v[k] = vadd(a.v[k], h, d.v[k]); } } if (tl) a.t += h * d.t; return a; }
static res cdiff(st s, st d, int up, int lo, int tl) { double h = 1e-5; res p = comb(move(s, h, d, up, lo, tl)), q = comb(move(s, -h, d, up, lo, tl)), o;
#define DM(x) o.x = maddm(maddm(mzero(), .5 / h, p.x), -.5 / h, q.x)
#define DV(x) o.x = vadd(vsc(.5 / h, p.x), -.5 / h, q.x)
  DM(R13); DM(T13); DM(R31); DM(T31); DV(S13); DV(S31); return o; }
#define ND 13
/* U none 0, S 1, L 2, B 3; pairs (upper, lower) the functions implement */
static const int PU[ND] = {0, 0, 1, 1, 0, 2, 2, 0, 3, 1, 3, 3, 0}, PL[ND] = {0, 1, 0, 1, 2, 0, 2, 3, 0, 3, 1, 3, 0};
static int CODE(int i) { static const int c[4][4] = {{ADDING_U_U, ADDING_U_S, ADDING_U_L, ADDING_U_B}, {ADDING_S_U, ADDING_S_S, ADDING_S_L, ADDING_S_B}, {ADDING_L_U, ADDING_L_S, ADDING_L_L, ADDING_L_B}, {ADDING_B_U, ADDING_B_S, ADDING_B_L, ADDING_B_B}}; return c[PU[i]][PL[i]]; }
static double **M_[12], *V_[12], **Ml_[12][ND], *Vl_[12][ND];
static double **O_[6], *Q_[6], **Ol_[6][ND], *Ql_[6][ND];
static void load(st s, st *d) { int k, i; for (k = 0; k < 12; k++) { M_[k] = m2p(s.m[k]); V_[k] = v2p(s.v[k]); for (i = 0; i < ND; i++) { Ml_[k][i] = m2p(d[i].m[k]); Vl_[k][i] = v2p(d[i].v[k]); } }
  for (k = 0; k < 6; k++) { O_[k] = m2p(mrand()); Q_[k] = v2p(vrand()); for (i = 0; i < ND; i++) { Ol_[k][i] = m2p(mzero()); Ql_[k][i] = v2p(vzero()); } } }
static const char *FNAME[] = {"layer_add_ref", "layer_add_ref2", "layer_add_ref2 with saved terms recomputed", "layer_add_ref2 with saved terms reused", "layer_add_all", "layer_add_all2", "layer_add_all2 with saved terms recomputed", "layer_add_all2 with saved terms reused",
  "source_add_all", "source_add_all2", "source_add_all2 with saved terms recomputed", "source_add_all2 with saved terms reused"};
static int fail(const char *w, int fn, int in, int sw, int val, int i) { printf("%s of %s wrong: in place %d, flag %d, values %d, derivative %d", w, FNAME[fn], in, sw, val, i); if (i >= 0) printf(" (combination %c_%c)", "USLB"[PU[i]], "USLB"[PL[i]]); printf("\n"); return 1; }
static int one(int fn, int in, int sw, int val, int dv) { st s = rnd(), d[ND]; res o, e; int i, k, nd = dv ? ND : 0; unsigned char der[ND]; double tl[ND]; work_data w = mkwork(ND); save_tree_data none; layer_add_aux_data A, *a = NULL;
  int ref = fn < 4, src = fn >= 8, var = ref ? fn : (fn - 4) % 4; memset(&none, 0, sizeof none);
  if (! ref && dv) s.t = 1.;
  for (i = 0; i < ND; i++) { d[i] = rnd(); der[i] = CODE(i); if (src && (PU[i] | PL[i]) & 2) der[i] = ADDING_U_U; tl[i] = ref ? d[i].t : 0.;
    if (ref && ! ((sw ? PL[i] : PU[i]) == 3)) tl[i] = 0.; d[i].t = tl[i]; }
  if (var >= 2) { layer_add_aux_alloc(&A, N); a = &A; }
  for (k = (var == 3 ? 0 : 1); k < 2; k++) {    /* saved terms reused: a first call computes them for the same operators and other sources */
    st s2 = s; int f3 = var == 1 || var == 2 || k == 0; if (k == 0) { st r = rnd(); int j; for (j = 0; j < 12; j++) s2.v[j] = r.v[j]; }
    load(s2, d);
#define IN(j, q) (in ? M_[q] : O_[j])
#define INV(j, q) (in ? V_[q] : Q_[j])
#define INL(j, q) (in ? Ml_[q] : Ol_[j])
#define INVL(j, q) (in ? Vl_[q] : Ql_[j])
    if (ref) { double **ro = in ? M_[R23] : O_[0], *so = in ? V_[S32] : Q_[5], ***rl = in ? Ml_[R23] : Ol_[0], **sl = in ? Vl_[S32] : Ql_[5]; O_[0] = ro; Q_[5] = so; for (i = 0; i < ND; i++) { Ol_[0][i] = rl[i]; Ql_[5][i] = sl[i]; }
      if (var == 0) layer_add_ref(M_[R12], M_[T12], V_[S12], M_[R21], M_[T21], V_[S21], M_[R23], V_[S32], ro, so, Ml_[R12], Ml_[T12], Vl_[S12], Ml_[R21], Ml_[T21], Vl_[S21], Ml_[R23], Vl_[S32], rl, sl, N, nd, s.t, tl, der, sw, val, none, w);
      else layer_add_ref2(M_[R12], M_[T12], V_[S12], M_[R21], M_[T21], V_[S21], M_[R23], V_[S32], ro, so, Ml_[R12], Ml_[T12], Vl_[S12], Ml_[R21], Ml_[T21], Vl_[S21], Ml_[R23], Vl_[S32], rl, sl, N, nd, s.t, tl, der, sw, val, f3, w, a); }
    else { if (in) for (i = 0; i < 6; i++) { int j; O_[i] = M_[i]; Q_[i] = V_[i]; for (j = 0; j < ND; j++) { Ol_[i][j] = Ml_[i][j]; Ql_[i][j] = Vl_[i][j]; } }
#define ARGS M_[0], M_[1], V_[2], M_[3], M_[4], V_[5], M_[6], M_[7], V_[8], M_[9], M_[10], V_[11], O_[0], O_[1], Q_[2], O_[3], O_[4], Q_[5], Ml_[0], Ml_[1], Vl_[2], Ml_[3], Ml_[4], Vl_[5], Ml_[6], Ml_[7], Vl_[8], Ml_[9], Ml_[10], Vl_[11], Ol_[0], Ol_[1], Ql_[2], Ol_[3], Ol_[4], Ql_[5], N, nd, s.t, tl, der
      if (src) { if (var == 0) source_add_all(ARGS, val, w); else source_add_all2(ARGS, val, f3, w, a); }
      else { if (var == 0) layer_add_all(ARGS, val, none, w); else layer_add_all2(ARGS, val, f3, w, a); } } }
  o = comb(s);
#define CK(c, what, i) if (c) return fail(what, fn, in, sw, val, i)
  if (val) { if (! src) { CK(mdiffer(p2m(O_[0]), o.R13, 1e-9), "reflection from above", -1); if (! ref) { CK(mdiffer(p2m(O_[1]), o.T13, 1e-9), "downward transmission", -1); CK(mdiffer(p2m(O_[3]), o.R31, 1e-9), "reflection from below", -1); CK(mdiffer(p2m(O_[4]), o.T31, 1e-9), "upward transmission", -1); } }
    CK(vdiffer(p2v(Q_[5]), o.S31, 1e-9), "upward source", -1); if (! ref) CK(vdiffer(p2v(Q_[2]), o.S13, 1e-9), "downward source", -1); }
  for (i = 0; i < nd; i++) if (der[i]) { int up = ref && sw ? PL[i] : PU[i], lo = ref && sw ? PU[i] : PL[i]; e = cdiff(s, d[i], up, lo, 1);
    if ((up | lo) & 2) { CK(mdiffer(p2m(Ol_[0][i]), e.R13, 1e-6), "derivative of reflection from above", i); if (! ref) { CK(mdiffer(p2m(Ol_[1][i]), e.T13, 1e-6), "derivative of downward transmission", i); CK(mdiffer(p2m(Ol_[3][i]), e.R31, 1e-6), "derivative of reflection from below", i); CK(mdiffer(p2m(Ol_[4][i]), e.T31, 1e-6), "derivative of upward transmission", i); } }
    if ((up | lo) & 1) { CK(vdiffer(p2v(Ql_[5][i]), e.S31, 1e-6), "derivative of upward source", i); if (! ref) CK(vdiffer(p2v(Ql_[2][i]), e.S13, 1e-6), "derivative of downward source", i); } }
  return 0; }
int main(void) { int fn, c, in, sw, val, dv; for (c = 0; c < 3; c++) for (fn = 0; fn < 12; fn++) for (in = 0; in < 2; in++) for (sw = 0; sw < (fn < 4 ? 2 : 1); sw++) for (val = 0; val < 2; val++) for (dv = 0; dv < 2; dv++) if (one(fn, in, sw, val, dv)) return 1; return 0; }
