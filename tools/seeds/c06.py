import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
M = 'src/xrtm_model.c'
SEEDS = [
dict(id='c06-vecs-mu0', prop='C06', needs='saved phase matrices; the solar zenith angle changed after a solve, nothing else',
 breaks='the saved beam phase vectors are not rebuilt when the solar angle changes',
 edits=[(M, 'int deps = DEP_MASK_MU_0 | DEP_MASK_COEF | DEP_MASK_COEF_L;', 'int deps = DEP_MASK_COEF | DEP_MASK_COEF_L;')],
 demo=MODEL + r'''
int main() { xrtm_data d; in_t s; double a[200]; OPT = BASE | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SAVE_PHASE_MATS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = 0; NU = 1;
 fill(&s); mk(&d); put(&d, &s); solve(&d, a); s.th0 = 55.; C(xrtm_set_theta_0(&d, s.th0)); return same("theta_0", &d, &s); }'''),
dict(id='c06-opt-ltau-l', prop='C06', needs='delta-M with derivatives; only the derivatives of the optical thickness changed after a solve',
 breaks='the scaled derivatives of the optical thickness are not recomputed when they are the only input that changed',
 edits=[(M, '''          return DEP_MASK_COEF | DEP_MASK_COEF_L | DEP_MASK_OMEGA | DEP_MASK_OMEGA_L |
                 DEP_MASK_LTAU | DEP_MASK_LTAU_L | utaus_deps(d);''', '''          return DEP_MASK_COEF | DEP_MASK_COEF_L | DEP_MASK_OMEGA | DEP_MASK_OMEGA_L |
                 DEP_MASK_LTAU | utaus_deps(d);''')],
 demo=MODEL + r'''
int main() { xrtm_data d; in_t s; double a[200]; OPT = BASE | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_DELTA_M | XRTM_OPTION_N_T_TMS | XRTM_OPTION_OUTPUT_AT_LEVELS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = ND; NU = 1;
 fill(&s); mk(&d); put(&d, &s); solve(&d, a); NOUPD = &d; s.ll[1][0] = .9; s.ll[1][1] = .7; C(xrtm_set_ltau_l_1n(&d, 1, s.ll[1])); return same("ltau_l", &d, &s); }'''),
dict(id='c06-resolve-all-terms', prop='C06', needs='saved local operators and more than one Fourier term; a layer changed after a solve',
 breaks='rebuilding the first Fourier term of a saved result also clears the flags of the other terms, which stay stale',
 edits=[(M, '''     if (dep_flags[i][j] &  deps) {
         dep_flags[i][j] &= (deps ^ DEP_MASK_MASK);
         return 1;''', '''     if (dep_flags[i][j] &  deps) {
         for ( ; i < d->n_four; ++i)
              dep_flags[i][j] &= (deps ^ DEP_MASK_MASK);
         return 1;''')],
 demo=MODEL + r'''
int main() { xrtm_data d; in_t s; double a[200]; OPT = BASE | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SAVE_LOCAL_R_T; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = 0; NU = 1;
 fill(&s); mk(&d); put(&d, &s); solve(&d, a); s.omega[1] = .3; C(xrtm_set_omega_1(&d, 1, s.omega[1])); return same("omega", &d, &s); }'''),
dict(id='c06-poly-order', prop='C06', needs='polynomials not kept per term; two solves in a row without a change of the angles',
 breaks='the polynomials of the last Fourier term of one solve are used for the first terms of the next',
 edits=[(M, 'flag2 = flag2 || i_four != *order_x;', 'flag2 = flag2 || i_four > *order_x;')],
 demo=MODEL + r'''
int main() { xrtm_data d; in_t s; double a[200]; OPT = BASE | XRTM_OPTION_OUTPUT_AT_LEVELS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = 0; NU = 1;
 fill(&s); mk(&d); put(&d, &s); solve(&d, a); s.omega[1] = .3; C(xrtm_set_omega_1(&d, 1, s.omega[1])); return same("omega", &d, &s); }'''),
]
