import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
SEEDS = [
dict(id='c05-varied-once', prop='C05', needs='derivatives; two solves in a row without xrtm_update_varied_layers, all inputs set before the first',
 breaks='only the first solve checks that the derivative tables have been built',
 edits=[(I, '''     if (d->inputs_initialized) {
          if (check_inputs_initialized(d)) {
               fprintf(stderr, "ERROR: check_inputs_initialized()\\n");
               return -1;
          }
     }

     if (check_inputs_post_checks(d)) {
          fprintf(stderr, "ERROR: check_inputs_post_checks()\\n");
          return -1;
     }

     if (d->options & XRTM_OPTION_CALC_DERIVS) {''', '''     i = d->inputs_initialized;
     if (d->inputs_initialized) {
          if (check_inputs_initialized(d)) {
               fprintf(stderr, "ERROR: check_inputs_initialized()\\n");
               return -1;
          }
     }

     if (check_inputs_post_checks(d)) {
          fprintf(stderr, "ERROR: check_inputs_post_checks()\\n");
          return -1;
     }

     if (i && d->options & XRTM_OPTION_CALC_DERIVS) {'''), (I, '''static int solution_preprocess(xrtm_data *d) {
''', '''static int solution_preprocess(xrtm_data *d) {

     int i;
''')],
 demo=MODEL + r'''
int main() { xrtm_data d; in_t s; double *phis[4], phi[1] = {30.}, m[200]; double ****Ip, *****Ipl; int i; phis[0] = phis[1] = phis[2] = phis[3] = phi; OPT = BASE | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_OUTPUT_AT_LEVELS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = ND; NU = 1;
 fill(&s); mk(&d); put(&d, &s); double *ml[2] = {m, m + 50}; Ip = alloc_array4_d(2, 1, 1, 1); Ipl = alloc_array5_d(2, ND, 1, 1, 1); 
 for (i = 0; i < 2; i++) if (xrtm_solution(&d, SOLVER, XRTM_OUTPUT_FLUX, 1, phis, Ip, Ip, Ipl, Ipl, m, m, ml, ml, m, m, ml, ml, m, ml) == 0) { printf("solve %d accepted before the derivative tables were built\n", i); return 1; } return 0; }'''),
dict(id='c05-params-mark', prop='C05', needs='two kernels with parameters; the parameters of the second set in one call',
 breaks='setting the parameters of any kernel marks those of the first one as set, so a solve runs on parameters that were never given',
 edits=[(I, '''     for (i = 0; i < n_params; ++i) {
          d->kernel_params[i_kernel][i] = params[i];

          if (d->inputs_initialized)
               d->set_flags_kernel_params[i_kernel][i] = 1;
     }''', '''     for (i = 0; i < n_params; ++i)
          d->kernel_params[i_kernel][i] = params[i];

     if (d->inputs_initialized) {
          for (i = 0; i < n_params * (i_kernel + 1); ++i)
               d->set_flags_kernel_params[0][i] = 1;
     }''')],
 demo=MODEL + r'''
int main() { xrtm_data d; in_t s; int i; double p[4] = {.1, .2, .3, .4}, x; enum xrtm_kernel_type K[2] = {XRTM_KERNEL_HAPKE, XRTM_KERNEL_RAHMAN}; OPT = BASE | XRTM_OPTION_OUTPUT_AT_LEVELS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = 0; NU = 1;
 C(xrtm_create(&d, OPT, SOLVER, NC, 2, 1, NDV, NL, 1, 2, 8, K, 2, NU)); C(xrtm_set_kernel_params_n(&d, 1, p));
 for (i = 0; i < kernel_n_params(K[0]); i++) { x = xrtm_get_kernel_params(&d, 0, i); if (x > -1e300) { printf("parameter %d of kernel 0 is marked as set\n", i); return 1; } } return 0; }'''.replace('#include <xrtm_interface.h>', '')),
dict(id='c05-gate-levels', prop='C05', needs='output at levels and a solar source, user defined output angles; theta_0 not set, everything else set',
 breaks='a solve with user angles is accepted although the solar zenith angle was never given',
 edits=[(I, '''          if (! d->set_flags_mu_0) {
               fprintf(stderr, "ERROR: %s not set\\n", xrtm_input_index_to_name(INPUT_THETA_0));''', '''          if (! d->set_flags_mu_0 && ! d->set_flags_umus) {
               fprintf(stderr, "ERROR: %s not set\\n", xrtm_input_index_to_name(INPUT_THETA_0));''')],
 demo=MODEL.replace('C(xrtm_set_theta_0(d, s->th0));', 'if (s->th0 >= 0) C(xrtm_set_theta_0(d, s->th0));') + r'''
int main() { xrtm_data d; in_t s; double *phis[4], phi[1] = {30.}, m[200]; double ****Ip; phis[0] = phis[1] = phis[2] = phis[3] = phi; OPT = BASE | XRTM_OPTION_OUTPUT_AT_LEVELS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = 0; NU = 1;
 fill(&s); s.th0 = -1; mk(&d); put(&d, &s); Ip = alloc_array4_d(2, 1, 1, 1); double *ml[2] = {m, m + 50};
 if (xrtm_solution(&d, SOLVER, XRTM_OUTPUT_RADIANCE, 1, phis, Ip, Ip, NULL, NULL, m, m, ml, ml, m, m, ml, ml, m, ml) == 0) { printf("accepted without theta_0\n"); return 1; } return 0; }'''),
dict(id='c05-gate-opens-early', prop='C05', needs='a solve attempted while the surface of a later kernel is still missing, then repeated',
 breaks='the configuration is recorded as complete before the kernels have been examined, so that a repeated request is accepted',
 edits=[(I, '''     for (i = 0; i < d->n_kernels; ++i) {
          if (! d->set_flags_kernel_ampfac[i]) {''', '''     d->inputs_initialized = 0;

     for (i = 0; i < d->n_kernels; ++i) {
          if (! d->set_flags_kernel_ampfac[i]) {''')],
 demo=MODEL.replace('C(xrtm_set_kernel_ampfac(d, 0, s->alb));', 'if (s->alb >= 0) C(xrtm_set_kernel_ampfac(d, 0, s->alb));') + r'''
int main() { xrtm_data d; in_t s; double *phis[4], phi[1] = {30.}, m[200]; double ****Ip; int i; phis[0] = phis[1] = phis[2] = phis[3] = phi; OPT = BASE | XRTM_OPTION_OUTPUT_AT_LEVELS; SOLVER = XRTM_SOLVER_EIG_BVP; NDV = 0; NU = 1;
 fill(&s); s.alb = -1; mk(&d); put(&d, &s); Ip = alloc_array4_d(2, 1, 1, 1); double *ml[2] = {m, m + 50};
 for (i = 0; i < 2; i++) if (xrtm_solution(&d, SOLVER, XRTM_OUTPUT_RADIANCE, 1, phis, Ip, Ip, NULL, NULL, m, m, ml, ml, m, m, ml, ml, m, ml) == 0) { printf("request %d accepted without the kernel amplitude\n", i); return 1; } return 0; }'''),
]
