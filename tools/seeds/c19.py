import os
R = open('/verif/replay/C19.c').read()
def seed(id, needs, breaks, edits): return dict(id=id, prop='C19', needs=needs, breaks=breaks, demo=R, edits=[('src/xrtm_fd_interface.c',) + e for e in edits])
SEEDS = [
seed('c19-coef-stride', 'coefficient perturbations of several scattering matrix elements, set for all derivatives of one layer', 'the perturbations of every derivative are those of the derivative with the number of the layer counted from the first',
 [("""                              case 2:
                                   a = ((double ***)  coef_p)[jj][k][l];""", """                              case 2:
                                   a = ((double ***)  coef_p)[ii][k][l];""")]),
seed('c19-ampfac-params', 'a kernel with more than one parameter and perturbations of the parameters', 'every parameter of a kernel is moved by the perturbation of its last one',
 [("xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][k])) {", "xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][n_params - 1])) {")]),
seed('c19-levels-last', 'thermal sources and a perturbation of the lowest level', 'the lowest level is never perturbed',
 [("           for (i = 0; i < d->d->n_layers + 1; ++i) {\n                levels_b[i] +=", "           for (i = 0; i < d->d->n_layers; ++i) {\n                levels_b[i] +=")]),
seed('c19-central-restore', 'central differences and more than one derivative', 'after a derivative the inputs are left at twice the perturbation instead of being restored',
 [("""               if (perturb_values(d, j, solver, -2., coef)) {""", """               if (perturb_values(d, j, solver, -1., coef)) {""")]),
seed('c19-params-n1', 'the perturbations of one kernel parameter set for all derivatives, more than one kernel', 'they are stored with the first kernel',
 [("          d->kernel_params_p[i_kernel][i][i_param] = params_p[i];", "          d->kernel_params_p[0][i][i_param] = params_p[i];")]),
]
