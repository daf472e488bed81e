/* small dense helpers for the replay programs that call the matrix-level functions directly */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
#include <xrtm_work.h>
#define N 3
typedef struct { double a[N][N]; } mx; typedef struct { double a[N]; } vc;
static unsigned long rs_ = 12345;
static int R_(int n) { rs_ = rs_ * 6364136223846793005UL + 1442695040888963407UL; return (int) ((rs_ >> 33) % n); }
static double U_(void) { return .02 + .25 * R_(1000000) / 1e6; }
static mx mrand(void) { mx r; int i, j; for (i = 0; i < N; i++) for (j = 0; j < N; j++) r.a[i][j] = U_(); return r; }
static vc vrand(void) { vc r; int i; for (i = 0; i < N; i++) r.a[i] = U_(); return r; }
static mx msym(mx x) { int i, j; for (i = 0; i < N; i++) for (j = 0; j < i; j++) x.a[i][j] = x.a[j][i]; return x; }
static mx mmul(mx x, mx y) { mx r; int i, j, k; for (i = 0; i < N; i++) for (j = 0; j < N; j++) { r.a[i][j] = 0; for (k = 0; k < N; k++) r.a[i][j] += x.a[i][k] * y.a[k][j]; } return r; }
static mx maddm(mx x, double s, mx y) { int i, j; for (i = 0; i < N; i++) for (j = 0; j < N; j++) x.a[i][j] += s * y.a[i][j]; return x; }
static mx meye(void) { mx r; int i, j; for (i = 0; i < N; i++) for (j = 0; j < N; j++) r.a[i][j] = i == j; return r; }
static mx mzero(void) { mx r; memset(&r, 0, sizeof r); return r; }
static vc vzero(void) { vc r; memset(&r, 0, sizeof r); return r; }
static mx mtr(mx x) { mx r; int i, j; for (i = 0; i < N; i++) for (j = 0; j < N; j++) r.a[i][j] = x.a[j][i]; return r; }
static vc mv(mx x, vc y) { vc r; int i, k; for (i = 0; i < N; i++) { r.a[i] = 0; for (k = 0; k < N; k++) r.a[i] += x.a[i][k] * y.a[k]; } return r; }
static vc vadd(vc x, double s, vc y) { int i; for (i = 0; i < N; i++) x.a[i] += s * y.a[i]; return x; }
static vc vsc(double s, vc x) { int i; for (i = 0; i < N; i++) x.a[i] *= s; return x; }
static mx minv(mx a) { mx r = meye(); int i, j, k; for (i = 0; i < N; i++) { int p = i; double t; for (j = i + 1; j < N; j++) if (fabs(a.a[j][i]) > fabs(a.a[p][i])) p = j;
  for (k = 0; k < N; k++) { t = a.a[i][k]; a.a[i][k] = a.a[p][k]; a.a[p][k] = t; t = r.a[i][k]; r.a[i][k] = r.a[p][k]; r.a[p][k] = t; }
  t = a.a[i][i]; for (k = 0; k < N; k++) { a.a[i][k] /= t; r.a[i][k] /= t; }
  for (j = 0; j < N; j++) if (j != i) { t = a.a[j][i]; for (k = 0; k < N; k++) { a.a[j][k] -= t * a.a[i][k]; r.a[j][k] -= t * r.a[i][k]; } } } return r; }
static double **m2p(mx x) { double **p = malloc(N * sizeof(double *)), *q = malloc(N * N * sizeof(double)); int i; memcpy(q, x.a, N * N * sizeof(double)); for (i = 0; i < N; i++) p[i] = q + i * N; return p; }
static double *v2p(vc x) { double *q = malloc(N * sizeof(double)); memcpy(q, x.a, sizeof x.a); return q; }
static mx p2m(double **p) { mx r; memcpy(r.a, *p, sizeof r.a); return r; }
static vc p2v(double *p) { vc r; memcpy(r.a, p, sizeof r.a); return r; }
static int mdiffer(mx x, mx y, double tol) { int i, j; for (i = 0; i < N; i++) for (j = 0; j < N; j++) if (!(fabs(x.a[i][j] - y.a[i][j]) <= tol * (1 + fabs(y.a[i][j])))) return 1; return 0; }
static int vdiffer(vc x, vc y, double tol) { int i; for (i = 0; i < N; i++) if (!(fabs(x.a[i] - y.a[i]) <= tol * (1 + fabs(y.a[i])))) return 1; return 0; }
/* a work area whose arrays all start out as not-a-number */
static work_data mkwork(int nd) { work_data w, c; int i, j; work_init(&w, N, N, 1, nd, 2, 0); c = w;
  for (i = 0; i < 40; i++) { double *v = work_get1(&c, WORK_DX), **m = work_get1(&c, WORK_DXX); for (j = 0; j < N; j++) v[j] = NAN; for (j = 0; j < N * N; j++) m[0][j] = NAN; }
  return w; }
