U = 'src/xrtm_utility.c'
PRE = r'''
#include <stdio.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_scatter.h>
#include <rtutil_support.h>
#include <xrtm_utility.h>
static int bad(double a, double b) { return !(fabs(a-b) <= 1e-6*(1.+fabs(b))); }
'''
SEEDS = [
dict(id='c14-coef-l-lastrows', prop='C14', needs='delta-M with polarization, expansion coefficients of the "lc" kind, derivatives with a non-zero derivative of rows 5 and 6',
 breaks='the derivative of the scaled coefficients of rows 5 and 6 is scaled although the value is not',
 edits=[(U, '''                         coef_prime_l[i][4][j] = coef_l[i][4][j];
                         coef_prime_l[i][5][j] = coef_l[i][5][j];''', '''                         coef_prime_l[i][4][j] = coef_l[i][4][j] / a;
                         coef_prime_l[i][5][j] = coef_l[i][5][j] / a;''')],
 demo=PRE + r'''
int main() {
  double c[6][3], cp[6][3], cl[2][6][3], cpl[2][6][3], c2[6][3], cp2[6][3]; double *C[6], *CP[6], *C2[6], *CP2[6], *CL[2][6], *CPL[2][6], **CLp[2], **CPLp[2];
  double f = .2, fl[2] = {.3, 0.}, h = 1e-7; int i, j, k;
  for (i = 0; i < 6; ++i) { C[i] = c[i]; CP[i] = cp[i]; C2[i] = c2[i]; CP2[i] = cp2[i]; for (j = 0; j < 3; ++j) c[i][j] = .5 + .1*i - .05*j; for (k = 0; k < 2; ++k) { CL[k][i] = cl[k][i]; CPL[k][i] = cpl[k][i]; for (j = 0; j < 3; ++j) cl[k][i][j] = .2 + .3*k + .1*i + .01*j; } }
  for (k = 0; k < 2; ++k) { CLp[k] = CL[k]; CPLp[k] = CPL[k]; }
  int t, types[2] = {SCAT_COEF_GC, SCAT_COEF_LC};
  for (t = 0; t < 2; ++t) {
    delta_m_coef(3, 2, f, fl, C, CP, CLp, CPLp, 1, types[t], 1);
    for (k = 0; k < 2; ++k) {
      for (i = 0; i < 6; ++i) for (j = 0; j < 3; ++j) c2[i][j] = c[i][j] + h*cl[k][i][j];
      delta_m_coef(3, 0, f + h*fl[k], NULL, C2, CP2, NULL, NULL, 1, types[t], 0);
      for (i = 0; i < 6; ++i) for (j = 0; j < 3; ++j) if (bad(cpl[k][i][j], (cp2[i][j]-cp[i][j])/h)) { printf("derivative %d of element %d %d\n", k, i, j); return 1; }
    }
  }
  return 0;
}
'''),
dict(id='c14-omega-l-second', prop='C14', needs='delta-M derivatives of the single scattering albedo with a derivative of the truncation fraction, for derivative indices after the first',
 breaks='for derivative indices after the first the derivative of the truncation fraction is taken from index 0',
 edits=[(U, '''          c = omega * f_l[i];

          omega_prime_l[i]''', '''          c = omega * f_l[i > 1 ? i - 1 : i];

          omega_prime_l[i]''')],
 demo=PRE + r'''
int main() {
  double f = .25, fl[4] = {.1, .3, -.2, .7}, o = .8, ol[4] = {.2, .1, .4, -.3}, op, op2, opl[4], h = 1e-7; int i;
  delta_m_omega(4, f, fl, o, &op, ol, opl, 1);
  for (i = 0; i < 4; ++i) { delta_m_omega(0, f + h*fl[i], NULL, o + h*ol[i], &op2, NULL, NULL, 0); if (bad(opl[i], (op2-op)/h)) { printf("omega derivative %d\n", i); return 1; } }
  return 0;
}
'''),
dict(id='c14-tms-sign', prop='C14', needs='single scattering correction derivatives where the truncation fraction itself varies',
 breaks='the contribution of the derivative of the truncation fraction to the corrected albedo has the wrong weight',
 edits=[(U, '(omega0_l[i] - *omega_tms * (-f_l[i] * omega0 - f * omega0_l[i])) / a;', '(omega0_l[i] - *omega_tms * (-f_l[i] * *omega_tms - f * omega0_l[i])) / a;')],
 demo=PRE + r'''
int main() {
  double f = .25, fl[3] = {.1, 0., .3}, o = .8, ol[3] = {.2, .1, 0.}, w, w2, wl[3], h = 1e-7; int i;
  n_t_tms_scaling(3, f, fl, o, &w, ol, wl);
  if (bad(w, o/(1.-f*o))) return 1;
  for (i = 0; i < 3; ++i) { n_t_tms_scaling(0, f + h*fl[i], NULL, o + h*ol[i], &w2, NULL, NULL); if (bad(wl[i], (w2-w)/h)) { printf("derivative %d\n", i); return 1; } }
  return 0;
}
'''),
]
