/* doubling functions of the real code against their definition and the central differences of the definition */
#include "mat.h"
#include <xrtm_doubling.h>
typedef struct { mx R, T; vc Sem, Sep, Slm, Slp, Lm, Lp; double t, f; } st;
static st dbl(st s, int ini) { st o = s; mx A = mmul(s.T, minv(maddm(meye(), -1, mmul(s.R, s.R)))); vc P; if (ini) { s.Lp = s.Slp; s.Lm = s.Slm; }
  o.R = maddm(s.R, 1, mmul(mmul(A, s.R), s.T)); o.T = mmul(A, s.T); P = vadd(s.Slp, s.f, s.Lp);
  o.Sep = vadd(s.Sep, 1, mv(A, vadd(mv(s.R, s.Sem), s.t, s.Sep))); o.Sem = vadd(vsc(s.t, s.Sem), 1, mv(A, vadd(vsc(s.t, mv(s.R, s.Sep)), 1, s.Sem)));
  o.Slp = vadd(s.Slp, 1, mv(A, vadd(mv(s.R, s.Slm), 1, P))); o.Slm = vadd(vadd(s.Slm, s.f, s.Lm), 1, mv(A, vadd(mv(s.R, P), 1, s.Slm)));
  o.Lp = vadd(s.Lp, 1, mv(A, vadd(mv(s.R, s.Lm), 1, s.Lp))); o.Lm = vadd(s.Lm, 1, mv(A, vadd(mv(s.R, s.Lp), 1, s.Lm))); return o; }
static st rnd(int sy) { st s; s.R = mrand(); s.T = mrand(); if (sy) { int i, j; mx d = mrand(), q; /* R and T commute through a common symmetric generator */ d = msym(d); q = mmul(d, d); s.R = maddm(mzero(), .8, d); s.T = maddm(maddm(meye(), -.5, d), .2, q); }
  s.Sem = vrand(); s.Sep = vrand(); s.Slm = vrand(); s.Slp = vrand(); s.Lm = vrand(); s.Lp = vrand(); s.t = U_() * 3; s.f = U_() * 2; return s; }
static st axpy(st a, double h, st b, int lay) { if (lay) { a.R = maddm(a.R, h, b.R); a.T = maddm(a.T, h, b.T); } a.Sem = vadd(a.Sem, h, b.Sem); a.Sep = vadd(a.Sep, h, b.Sep); a.Slm = vadd(a.Slm, h, b.Slm); a.Slp = vadd(a.Slp, h, b.Slp); a.Lm = vadd(a.Lm, h, b.Lm); a.Lp = vadd(a.Lp, h, b.Lp); a.t += h * b.t; a.f += h * b.f; return a; }
#define ND 3
static int fail(const char *w, int fn, int c, int so, int th, int in, int k, int fl) { printf("%s of %s wrong: case %d, solar %d, thermal %d, initialize %d, derivative %d (layer/beam/thermal activity %d)\n", w, fn == 0 ? "layer_double" : fn == 1 ? "layer_double_l" : fn == 2 ? "layer_double_s" : "layer_double_s_l", c, so, th, in, k, fl); return 1; }
static int one(int fn, int c, int so, int th, int in) { int sy = fn >= 2, l = fn & 1, k; st s = rnd(sy), e = dbl(s, in), d[ND], g; work_data w; double tl[ND], fl[ND];
  unsigned char dl[ND], db[ND], dt[ND]; double **Rl[ND], **Tl[ND], *a[6][ND]; double **R = m2p(s.R), **T = m2p(s.T), *v[6]; v[0] = v2p(s.Sem); v[1] = v2p(s.Sep); v[2] = v2p(s.Slm); v[3] = v2p(s.Slp); v[4] = v2p(s.Lm); v[5] = v2p(s.Lp);
  for (k = 0; k < ND; k++) { d[k] = rnd(sy); if (sy) { d[k].R = msym(d[k].R); d[k].T = msym(d[k].T); } dl[k] = R_(2); db[k] = R_(2); dt[k] = R_(2); tl[k] = d[k].t; fl[k] = d[k].f; Rl[k] = m2p(d[k].R); Tl[k] = m2p(d[k].T);
    a[0][k] = v2p(d[k].Sem); a[1][k] = v2p(d[k].Sep); a[2][k] = v2p(d[k].Slm); a[3][k] = v2p(d[k].Slp); a[4][k] = v2p(d[k].Lm); a[5][k] = v2p(d[k].Lp); }
  w = mkwork(l ? ND : 0);
  if (fn == 0) layer_double(R, T, v[0], v[1], v[2], v[3], v[4], v[5], N, s.t, s.f, so, th, in, w);
  if (fn == 2) layer_double_s(R, T, v[0], v[1], v[2], v[3], v[4], v[5], N, s.t, s.f, so, th, in, w);
  if (fn == 1) layer_double_l(R, T, v[0], v[1], v[2], v[3], v[4], v[5], Rl, Tl, a[0], a[1], a[2], a[3], a[4], a[5], N, ND, s.t, tl, s.f, fl, so, th, in, dl, db, dt, w);
  if (fn == 3) layer_double_s_l(R, T, v[0], v[1], v[2], v[3], v[4], v[5], Rl, Tl, a[0], a[1], a[2], a[3], a[4], a[5], N, ND, s.t, tl, s.f, fl, so, th, in, dl, db, dt, w);
#define CK(cond, what, k) if (cond) return fail(what, fn, c, so, th, in, k, k < 0 ? 0 : dl[k] * 4 + db[k] * 2 + dt[k])
  CK(mdiffer(p2m(R), e.R, 1e-9), "reflection", -1); CK(mdiffer(p2m(T), e.T, 1e-9), "transmission", -1);
  if (so) { CK(vdiffer(p2v(v[0]), e.Sem, 1e-9), "downward solar source", -1); CK(vdiffer(p2v(v[1]), e.Sep, 1e-9), "upward solar source", -1); }
  if (th) { CK(vdiffer(p2v(v[2]), e.Slm, 1e-9) || vdiffer(p2v(v[3]), e.Slp, 1e-9) || vdiffer(p2v(v[4]), e.Lm, 1e-9) || vdiffer(p2v(v[5]), e.Lp, 1e-9), "thermal source", -1); }
  if (l) for (k = 0; k < ND; k++) { double h = 1e-5; g = dbl(axpy(s, h, d[k], dl[k]), in); e = dbl(axpy(s, -h, d[k], dl[k]), in);
#define FM(x) maddm(maddm(mzero(), .5 / h, g.x), -.5 / h, e.x)
#define FV(x) vadd(vsc(.5 / h, g.x), -.5 / h, e.x)
    CK(mdiffer(p2m(Rl[k]), dl[k] ? FM(R) : d[k].R, 1e-6), "derivative of reflection", k); CK(mdiffer(p2m(Tl[k]), dl[k] ? FM(T) : d[k].T, 1e-6), "derivative of transmission", k);
    CK(vdiffer(p2v(a[0][k]), so && db[k] ? FV(Sem) : d[k].Sem, 1e-6) || vdiffer(p2v(a[1][k]), so && db[k] ? FV(Sep) : d[k].Sep, 1e-6), "derivative of solar source", k);
    if (th && dt[k]) CK(vdiffer(p2v(a[2][k]), FV(Slm), 1e-6) || vdiffer(p2v(a[3][k]), FV(Slp), 1e-6) || vdiffer(p2v(a[4][k]), FV(Lm), 1e-6) || vdiffer(p2v(a[5][k]), FV(Lp), 1e-6), "derivative of thermal source", k); }
  return 0; }
int main(void) { int fn, c, so, th, in; for (fn = 0; fn < 4; fn++) for (c = 0; c < 12; c++) for (so = 0; so < 2; so++) for (th = 0; th < (fn >= 2 ? 1 : 2); th++) for (in = 0; in < 2; in++) if (one(fn, c, so, th, in)) return 1; return 0; }
