G = 'misc/gmatrix.h'; X = 'src/xrtm_matrix.c'
PRE = r'''
#include <stdio.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_matrix.h>
static int bad(double a, double b) { return !(fabs(a-b) <= 1e-9*(1.+fabs(b))); }
static double rnd(int i, int j, int s) { return .3 + .17*i - .23*j + .05*s + .013*i*j; }
static double **mat(int m, int n, int s) { int i, j; double **a = malloc((m+1)*sizeof(double *)); a[0] = malloc((m*n+8)*sizeof(double)); for (i = 0; i < m; ++i) { a[i] = a[0] + i*n; for (j = 0; j < n; ++j) a[i][j] = rnd(i, j, s); } return a; }
'''
SEEDS = [
dict(id='c11-vxvt-neg-neg', prop='C11', needs='outer product accumulation with alpha == -1 and beta == -1',
 breaks='c = -c - a b^T is computed as c - a b^T',
 edits=[(G, '''                         c[i][j] = -c[i][j] - a[i] * b[j];''', '''                         c[i][j] =  c[i][j] - a[i] * b[j];''')],
 demo=PRE + r'''
int main() {
  double al[] = {1., -1., .7}, be[] = {0., 1., -1., .4}; int p, q, i, j; double a[3], b[2];
  for (i = 0; i < 3; ++i) a[i] = .4 + i; for (i = 0; i < 2; ++i) b[i] = .6 - i;
  for (p = 0; p < 3; ++p) for (q = 0; q < 4; ++q) {
    double **c = mat(3, 2, 1), **d = mat(3, 2, 1);
    dmat_vxvtmx(a, b, al[p], c, be[q], 3, 2);
    for (i = 0; i < 3; ++i) for (j = 0; j < 2; ++j) if (bad(c[i][j], be[q]*d[i][j] + al[p]*a[i]*b[j])) { printf("alpha %f beta %f\n", al[p], be[q]); return 1; }
  }
  return 0;
}
'''),
dict(id='c11-i-sub-inplace', prop='C11', needs='I - B computed in place (the output is the input)',
 breaks='the diagonal is computed from the already negated element when the output is the input',
 edits=[(G, '''               c[i][j] = -b[i][j];
          }

          c[i][i] += 1.;''', '''               c[i][j] = -b[i][j];
          }

          c[i][i] = 1. - b[i][i];''')],
 demo=PRE + r'''
int main() {
  int i, j; double **b = mat(4, 4, 2), **c = mat(4, 4, 3), **d = mat(4, 4, 2);
  dmat_i_sub(b, c, 4); dmat_i_sub(b, b, 4);
  for (i = 0; i < 4; ++i) for (j = 0; j < 4; ++j) { double w = (i == j) - d[i][j]; if (bad(c[i][j], w)) { puts("separate"); return 1; } if (bad(b[i][j], w)) { puts("in place"); return 1; } }
  return 0;
}
'''),
dict(id='c11-scale-inplace-minus', prop='C11', needs='a vector scaled by -1 into a different vector with more than 16 elements',
 breaks='the negating copy between different vectors stops after 16 elements',
 edits=[('misc/gvector.h', '''          else
          if (s == -1.) {
               for (i = 0; i < n; ++i)
                    b[i] = -a[i];
          }
          else {
               for (i = 0; i < n; ++i)
                    b[i] = a[i] * s;
          }''', '''          else
          if (s == -1.) {
               for (i = 0; i < n && i < 16; ++i)
                    b[i] = -a[i];
          }
          else {
               for (i = 0; i < n; ++i)
                    b[i] = a[i] * s;
          }''')],
 demo=PRE + r'''
int main() {
  double a[40], b[40]; int i;
  for (i = 0; i < 40; ++i) { a[i] = .1 + i; b[i] = 99.; }
  dvec_scale(-1., a, b, 40);
  for (i = 0; i < 40; ++i) if (bad(b[i], -a[i])) { printf("element %d\n", i); return 1; }
  return 0;
}
'''),
dict(id='c11-band2-offset', prop='C11', needs='scaled insertion of a block into band storage with a factor that is neither 1 nor -1',
 breaks='the diagonal factor of the row instead of that of the column is used',
 edits=[(X, '''                    a[jj][ii - jj] =  alpha * d[j] * b[i][j];
                    jj++;
               }
               ii++;
          }
     }
}



/*******************************************************************************
 *
 ******************************************************************************/
void insert_matrix_band_storage1_dc''', '''                    a[jj][ii - jj] =  alpha * d[i] * b[i][j];
                    jj++;
               }
               ii++;
          }
     }
}



/*******************************************************************************
 *
 ******************************************************************************/
void insert_matrix_band_storage1_dc''')],
 demo=PRE + r'''
int main() {
  int i, j; double al[] = {1., -1., .6}, d[2] = {.4, .9}; int q;
  for (q = 0; q < 3; ++q) {
    double **a = mat(8, 12, 0), **b = mat(2, 2, 5);
    insert_matrix_band_storage2_d(2, 2, 3, 3, 1, 2, a, al[q], d, b);
    for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) { int r = 2 + i, c = 4 + j; if (bad(a[c][3 + 3 + r - c], al[q]*d[j]*b[i][j])) { printf("factor %f\n", al[q]); return 1; } }
  }
  return 0;
}
'''),
]
