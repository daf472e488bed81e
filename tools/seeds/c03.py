import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
TRY = HDR + r'''
static int try_(int o, int s, int nc, int nq, int ns, int nd, int nk, enum xrtm_kernel_type *K, int nv, int nu) { static xrtm_data d; return xrtm_create(&d, o, s, nc, nq, ns, nd, 2, 1, nk, 4, K, nv, nu); }
'''
SEEDS = [
dict(id='c03-tms-late', prop='C03', needs='the TMS correction requested without delta-M, with too few coefficients for delta-M',
 breaks='delta-M is switched on only after the dimensions have been checked against it, so an inconsistent configuration is created',
 edits=[(I, '''     if (d->options & XRTM_OPTION_N_T_TMS)
          d->options |= XRTM_OPTION_DELTA_M;

''', ''), (I, '''     if (   d->options & XRTM_OPTION_PHASE_MATRIX_LC)
          d->options |= XRTM_OPTION_SAVE_PHASE_MATS;
''', '''     if (   d->options & XRTM_OPTION_PHASE_MATRIX_LC)
          d->options |= XRTM_OPTION_SAVE_PHASE_MATS;

     if (d->options & XRTM_OPTION_N_T_TMS)
          d->options |= XRTM_OPTION_DELTA_M;
''')],
 demo=TRY + r'''
int main() { enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; int r = try_(XRTM_OPTION_N_T_TMS | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR, XRTM_SOLVER_EIG_BVP, 3, 2, 1, 0, 1, K, 2, 0); if (r == 0) { printf("accepted 3 coefficients for delta-M with n_quad 2\n"); return 1; } return 0; }'''),
dict(id='c03-last-kernel', prop='C03', needs='two kernels, the second one invalid',
 breaks='the type of the last of several kernels is not checked',
 edits=[(I, '''     for (i = 0; i < d->n_kernels; ++i) {
          if (! kernel_is_valid(kernels[i])) {''', '''     for (i = 0; i < d->n_kernels; i += 2) {
          if (! kernel_is_valid(kernels[i])) {''')],
 demo=TRY + r'''
int main() { enum xrtm_kernel_type K[2] = {XRTM_KERNEL_LAMBERTIAN, N_XRTM_KERNEL_TYPES}; int r = try_(XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR, XRTM_SOLVER_EIG_BVP, 5, 2, 1, 0, 2, K, 2, 0); if (r == 0) { printf("accepted an invalid kernel\n"); return 1; } return 0; }'''),
dict(id='c03-solver-list', prop='C03', needs='a solver list of one rule in which a solver is hidden behind the end of the list',
 breaks='output at optical depths is accepted for the successive orders solver, which does not support it',
 edits=[(I, 'xrtm_option_mask_to_name(XRTM_OPTION_OUTPUT_AT_TAUS), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS, 0))', 'xrtm_option_mask_to_name(XRTM_OPTION_OUTPUT_AT_TAUS), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVERS_USE_G, XRTM_SOLVER_SOS, 0))')],
 demo=TRY + r'''
int main() { enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; int r = try_(XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_SOURCE_SOLAR, XRTM_SOLVER_SOS, 5, 2, 1, 0, 1, K, 2, 0); if (r == 0) { printf("accepted\n"); return 1; } return 0; }'''),
dict(id='c03-vector-levels', prop='C03', needs='several Stokes components requested without the vector option and without a phase matrix type',
 breaks='the phase function type is completed before the vector option, so a valid configuration is refused or gets the scalar type',
 edits=[(I, '''     if (d->n_stokes > 1)
          d->options |= XRTM_OPTION_VECTOR;

''', ''), (I, '''     if (! (d->options & (XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_QUAD_DOUB_GAUS_LEG | XRTM_OPTION_QUAD_LOBATTO)))
          d->options |=''', '''     if (d->n_stokes > 1)
          d->options |= XRTM_OPTION_VECTOR;

     if (! (d->options & (XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_QUAD_DOUB_GAUS_LEG | XRTM_OPTION_QUAD_LOBATTO)))
          d->options |=''')],
 demo=TRY + r'''
int main() { enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN}; int r = try_(XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR, XRTM_SOLVER_EIG_BVP, 5, 2, 3, 0, 1, K, 2, 0); if (r) { printf("refused\n"); return 1; } return 0; }'''),
]
