V = '/verif/replay/'
R = open(V + 'C08.c').read(); FILES = {f: open(V + f).read() for f in ('C03.c', 'api.h', 'solve.h')}
def seed(id, needs, breaks, *edits): return dict(id=id, prop='C08', needs=needs, breaks=breaks, demo=R, files=FILES, edits=list(edits))
I = 'src/xrtm_interface.c'; S = 'src/xrtm_stacks.c'; B = 'src/xrtm_brdf.c'
SEEDS = [
seed('c08-saved-uq-vector', 'saved phase matrices of the azimuthally reversed direction with source function integration at user angles in vector mode', 'two of the saved matrices at user angles are never released',
 (I, """               if (d->options & XRTM_OPTION_SFI && d->n_umus > 0) {
                    free_array4_d(d->P_uq_mm);
                    free_array4_d(d->P_uq_pm);
               }
          }

          if (d->options & XRTM_OPTION_SAVE_LOCAL_R_T  && d->options & XRTM_OPTION_VECTOR) {
               free""", """               if (! (d->options & XRTM_OPTION_CALC_DERIVS) && d->options & XRTM_OPTION_SFI && d->n_umus > 0) {
                    free_array4_d(d->P_uq_mm);
                    free_array4_d(d->P_uq_pm);
               }
          }

          if (d->options & XRTM_OPTION_SAVE_LOCAL_R_T  && d->options & XRTM_OPTION_VECTOR) {
               free""")),
seed('c08-stack-last-four', 'stack reuse with derivatives and more than one Fourier term', 'the adding workspace of multi-layer stacks is released for all Fourier terms but the last',
 (S, """                    for (j = 0; j < n_four; ++j)
                         layer_add_aux_free(&stacks[i].d[j]);""", """                    for (j = 0; j + 1 < n_four || j == 0; ++j)
                         layer_add_aux_free(&stacks[i].d[j]);""")),
seed('c08-stack-taken', 'stack reuse, three or more updates of the active derivatives with layers changing between them', 'a stack taken over from the old chain stays marked as holding its blocks when it spans several layers',
 (S, "               stacks0[ii].allocated = 0;", "               stacks0[ii].allocated = i >= n_layers && n_stacks0 != n_stacks;")),
seed('c08-total-derivs', 'saved total results with derivatives, without saved layer results', 'the derivatives of the saved total source terms are released only together with the saved layer results',
 (I, """               free_array3_d (d->Sa_p_l);
               free_array3_d (d->Sa_m_l);
""", """               if (d->options & XRTM_OPTION_SAVE_LAYER_R_T_S)
                    free_array3_d (d->Sa_p_l);
               free_array3_d (d->Sa_m_l);
""")),
seed('c08-brdf-params', 'a handle with exactly one kernel', 'the record of kernel parameters is released only with two or more kernels',
 (I, """               free_array2_uc(d->set_flags_kernel_params);
""", """               if (d->n_kernels > 1)
                    free_array2_uc(d->set_flags_kernel_params);
""")),
]
