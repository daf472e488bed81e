import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
DEMO = open(os.path.join(os.path.dirname(spec), '..', '..', 'replay', 'C07.c')).read()
SEEDS = [
dict(id='c07-thermal-below', prop='C07', needs='thermal sources; a derivative that varies the Planck function only at one level',
 breaks='a layer whose lower level alone carries a Planck function derivative is not marked', demo=DEMO,
 edits=[(I, 'd->levels_b_l[i][j] != 0. || d->levels_b_l[i + 1][j] != 0.)', 'd->levels_b_l[i][j] != 0.)')]),
dict(id='c07-coef-count', prop='C07', needs='layers with different numbers of expansion coefficients; a derivative that varies only a high-order coefficient',
 breaks='derivatives of coefficients beyond the number of coefficients of the first layer are dropped from the layer table', demo=DEMO,
 edits=[(I, '''                    for (l = 0; l < d->n_coef_layer[i]; ++l) {
                         if (d->coef0_l[i][j][k][l] != 0.) {''', '''                    for (l = 0; l < d->n_coef_layer[0]; ++l) {
                         if (d->coef0_l[i][j][k][l] != 0.) {''')]),
dict(id='c07-adding-down-code', prop='C07', needs='thermal sources; a derivative with varied sources in the layers above and a varied layer below whose source also varies',
 breaks='the combination of varied sources above with a fully varied layer is classified as one whose source does not vary', demo=DEMO,
 edits=[(I, 'derivs_adding_down[i][j] = ADDING_S_B;', 'derivs_adding_down[i][j] = ADDING_S_L;')]),
dict(id='c07-up-sources', prop='C07', needs='a derivative that varies the source of a layer but not the layer itself, below other layers',
 breaks='varied sources of a layer are forgotten for the levels above when the layer itself is not varied', demo=DEMO,
 edits=[(I, '''               if (derivs_layers[i][j])
                    flag = 1;

               if (derivs_sources[i][j])
                    flag2 = 1;
          }
     }

     flags_fill_meta2(derivs_adding_up,''', '''               if (derivs_layers[i][j])
                    flag = 1;

               if (derivs_sources[i][j] && flag)
                    flag2 = 1;
          }
     }

     flags_fill_meta2(derivs_adding_up,''')]),
dict(id='c07-kernel-params', prop='C07', needs='a kernel with several parameters; a derivative that varies only the last one',
 breaks='a derivative with respect to the last kernel parameter does not mark the surface', demo=DEMO,
 edits=[(I, '''                    for (l = 0; l < n_params; ++l) {
                         if (d->kernel_params_l[k][j][l] != 0.) {''', '''                    for (l = 0; l < n_params - 1; ++l) {
                         if (d->kernel_params_l[k][j][l] != 0.) {''')]),
]
