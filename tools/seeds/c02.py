import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
MK = r'''
static xrtm_data d; static void mk(int opt, int nl, int nlev, int nu) { enum xrtm_kernel_type K[1] = {XRTM_KERNEL_LAMBERTIAN};
 if (xrtm_create(&d, BASE | opt, XRTM_SOLVER_EIG_BVP, 9, 2, 1, 2, nl, 1, 1, 8, K, nlev, nu)) exit(9); }
'''
SEEDS = [
dict(id='c02-levels-equal', prop='C02', needs='output levels where two consecutive entries are equal and come after a strictly increasing pair',
 breaks='a repeated output level is accepted',
 edits=[(I, 'if (out_levels[i] <= out_levels[i-1] || out_levels[i] > d->n_layers) {', 'if (out_levels[i] < out_levels[i-1] || (i == 1 && out_levels[i] == out_levels[i-1]) || out_levels[i] > d->n_layers) {')],
 demo=HDR + MK + r'''
int main() { int a[3] = {0, 2, 4}, b[3] = {0, 3, 3}, g[3]; mk(XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_OUTPUT_AT_LEVELS, 4, 3, 0); if (xrtm_set_out_levels(&d, a)) return 8;
 if (!xrtm_set_out_levels(&d, b)) { printf("repeated level accepted\n"); return 1; } xrtm_get_out_levels(&d, g); return memcmp(a, g, sizeof a) != 0; }'''),
dict(id='c02-levels-z-order', prop='C02', needs='a height grid that increases only at the surface',
 breaks='an increasing height at the lowest level is accepted',
 edits=[(I, '''     for (i = 1; i < d->n_layers + 1; ++i) {
          if (levels_z[i] > levels_z[i-1]) {''', '''     for (i = 1; i < d->n_layers + (d->n_layers == 1); ++i) {
          if (levels_z[i] > levels_z[i-1]) {''')],
 demo=HDR + MK + r'''
int main() { double a[4] = {30, 20, 10, 0}, b[4] = {30, 20, 10, 12}, g[4]; mk(XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_PSA | XRTM_OPTION_OUTPUT_AT_LEVELS, 3, 2, 0); if (xrtm_set_levels_z(&d, a)) return 8;
 if (!xrtm_set_levels_z(&d, b)) { printf("increasing height accepted\n"); return 1; } xrtm_get_levels_z(&d, g); return memcmp(a, g, sizeof a) != 0; }'''),
]
