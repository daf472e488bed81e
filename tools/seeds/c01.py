import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
SEEDS = [
dict(id='c01-coef-l-count', prop='C01', needs='coefficient derivatives set for a layer other than the first, with a different number of coefficients per layer',
 breaks='the number of coefficients of the wrong layer bounds the copy of the derivatives, so trailing values are not stored',
 edits=[(I, '''                    for (l = 0; l < d->n_coef_layer[i]; ++l) {
                         switch(type) {''', '''                    for (l = 0; l < d->n_coef_layer[ii]; ++l) {
                         switch(type) {''')],
 demo=HDR + r'''
int main() { xrtm_data d; enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; double c[9], *p[1] = {c}, cl[9], *pl[1] = {cl}; int i;
 if (xrtm_create(&d, BASE | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_OUTPUT_AT_LEVELS, XRTM_SOLVER_EIG_BVP, 9, 2, 1, 2, 2, 1, 1, 8, K, 2, 0)) return 9;
 for (i = 0; i < 9; i++) { c[i] = i ? .1*i : 1; cl[i] = .5+i; }
 if (xrtm_set_coef_1(&d, 0, 4, p)) return 8; if (xrtm_set_coef_1(&d, 1, 9, p)) return 8;
 if (xrtm_set_coef_l_11(&d, 1, 1, pl)) return 7;
 for (i = 0; i < 9; i++) if (xrtm_get_coef_l(&d, 1, 1, 0, i) != cl[i]) { printf("coefficient derivative %d reads back %g\n", i, xrtm_get_coef_l(&d, 1, 1, 0, i)); return 1; }
 return 0; }'''),
dict(id='c01-levels-b-l', prop='C01', needs='thermal level derivatives set as a whole array with more than one derivative and read back at the lowest level',
 breaks='the lowest level keeps its old derivatives for derivative indices after the first',
 edits=[(I, '''          for (j = 0; j < d->n_derivs; ++j)
               d->levels_b_l[i][j] = levels_b_l[i][j];''', '''          for (j = 0; j < (i < d->n_layers ? d->n_derivs : MIN(1, d->n_derivs)); ++j)
               d->levels_b_l[i][j] = levels_b_l[i][j];''')],
 demo=HDR + r'''
int main() { xrtm_data d; enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; double v[4][3], *p[4], g[4]; int i, k;
 if (xrtm_create(&d, BASE | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_OUTPUT_AT_LEVELS, XRTM_SOLVER_EIG_BVP, 9, 2, 1, 3, 3, 1, 1, 8, K, 2, 0)) return 9;
 for (i = 0; i < 4; i++) { p[i] = v[i]; for (k = 0; k < 3; k++) v[i][k] = 1+i+10*k; }
 if (xrtm_set_levels_b_l_n(&d, p)) return 8;
 for (k = 0; k < 3; k++) { if (xrtm_get_levels_b_l(&d, k, g)) return 7; for (i = 0; i < 4; i++) if (g[i] != v[i][k]) { printf("level %d derivative %d\n", i, k); return 1; } }
 return 0; }'''),
dict(id='c01-ampfac-l-kernel', prop='C01', needs='two kernels and amplitude derivatives set for the second kernel as a whole array',
 breaks='the derivatives of the second kernel overwrite those of the first',
 edits=[(I, '''          d->kernel_ampfac_l[i_kernel][i] = ampfac_l[i];''', '''          d->kernel_ampfac_l[i_kernel > 1 ? i_kernel : 0][i] = ampfac_l[i];''')],
 demo=HDR + r'''
int main() { xrtm_data d; enum xrtm_kernel_type K[3] = {XRTM_KERNEL_LAMBERTIAN, XRTM_KERNEL_RAHMAN, XRTM_KERNEL_HAPKE}; double a[3][2] = {{.1,.2},{.3,.4},{.5,.6}}; int i, k;
 if (xrtm_create(&d, BASE | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_OUTPUT_AT_LEVELS, XRTM_SOLVER_EIG_BVP, 9, 2, 1, 2, 2, 1, 3, 8, K, 2, 0)) return 9;
 for (i = 0; i < 3; i++) if (xrtm_set_kernel_ampfac_l_n(&d, i, a[i])) return 8;
 for (i = 0; i < 3; i++) for (k = 0; k < 2; k++) if (xrtm_get_kernel_ampfac_l(&d, i, k) != a[i][k]) { printf("kernel %d derivative %d\n", i, k); return 1; }
 return 0; }'''),
]
