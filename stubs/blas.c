/* Assumed contracts of the external BLAS routines, written as their defining formulas (column-major, Fortran
   calling convention).  These bodies are executed symbolically in place of the external library. */
void dgemm_(const char *ta, const char *tb, long *m, long *n, long *k, double *alpha,
            double *a, long *lda, double *b, long *ldb, double *beta, double *c, long *ldc) {
     long i, j, l;
     for (j = 0; j < *n; ++j) {
          for (i = 0; i < *m; ++i) {
               double x = 0.;
               for (l = 0; l < *k; ++l)
                    x += (*ta == 't' || *ta == 'T' ? a[i * *lda + l] : a[l * *lda + i]) * (*tb == 't' || *tb == 'T' ? b[l * *ldb + j] : b[j * *ldb + l]);
               c[j * *ldc + i] = *beta * c[j * *ldc + i] + *alpha * x;
          }
     }
}
void dgemv_(const char *ta, long *m, long *n, double *alpha, double *a, long *lda, double *x, long *incx,
            double *beta, double *y, long *incy) {
     long i, l;
     if (*ta == 't' || *ta == 'T') {
          for (i = 0; i < *n; ++i) {
               double s = 0.;
               for (l = 0; l < *m; ++l) s += a[i * *lda + l] * x[l * *incx];
               y[i * *incy] = *beta * y[i * *incy] + *alpha * s;
          }
     }
     else {
          for (i = 0; i < *m; ++i) {
               double s = 0.;
               for (l = 0; l < *n; ++l) s += a[l * *lda + i] * x[l * *incx];
               y[i * *incy] = *beta * y[i * *incy] + *alpha * s;
          }
     }
}
