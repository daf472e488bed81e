import os
D = 'src/xrtm_doubling.c'
H_ = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(spec)))) if 'os' in globals() else '/verif'
MAT = open(H_ + '/replay/mat.h').read()
BODY = MAT + open(H_ + '/replay/C13.c').read().replace('#include "mat.h"', '')
SEEDS = [
dict(id='c13-linfac-l-source', prop='C13', needs='doubling with thermal sources and a derivative that varies the thermal source but not the layer operators (thermal activity set, layer activity clear) with a nonzero derivative of the linear factor',
 breaks='in the sources-only derivative of the doubled thermal source the derivative of the linear factor multiplies the downward linear source in the reflected term',
 edits=[(D, '''                    dvec_scale(lin_fac_l[i], L_p, v5, n);
                    dvec_add(v3, v5, v3, n);
                    dm_v_mul(R, v3, n, n, v5);

                    dvec_add(v5, Sl_m_l[i], v3, n);''', '''                    dvec_scale(lin_fac_l[i], L_m, v5, n);
                    dvec_add(v3, v5, v3, n);
                    dm_v_mul(R, v3, n, n, v5);

                    dvec_add(v5, Sl_m_l[i], v3, n);''')], demo=BODY),
dict(id='c13-init-derivative', prop='C13', needs='first doubling step (initialize set) with thermal sources and a derivative whose thermal activity is set and layer activity clear',
 breaks='the derivative of the downward linear source is initialized from the derivative of the upward source',
 edits=[(D, '''                         dvec_copy(L_m_l[i], Sl_m_l[i], n);
                    }

                    /* v1 = */
                    dm_v_mul(R, Sl_m_l[i], n, n, v2);''', '''                         dvec_copy(L_m_l[i], Sl_p_l[i], n);
                    }

                    /* v1 = */
                    dm_v_mul(R, Sl_m_l[i], n, n, v2);''')], demo=BODY),
dict(id='c13-al-added-late', prop='C13', needs='two-step history of the work vectors: solar derivative with layer and beam activity; wrong only when atran_l is nonzero',
 breaks='the derivative of the attenuation multiplies the already updated derivative instead of the source in the downward solar source of a varied layer',
 edits=[(D, '''                    /* Se_m_l = v2 + Se_m_l * t + Se_m * L(t) */
                    dvec_scale(atran, Se_m_l[i], v3, n);
                    dvec_add(v2, v3, v2, n);
                    dvec_scale(atran_l[i], Se_m, v3, n);
                    dvec_add(v2, v3, Se_m_l[i], n);
               }


               /*---------------------------------------------------------------
                *
                *-------------------------------------------------------------*/
               if (thermal && derivs_thermal[i]) {
                    if (initialize) {
                         dvec_copy(L_p_l[i], Sl_p_l[i], n);
                         dvec_copy(L_m_l[i], Sl_m_l[i], n);
                    }

                    /* v1 = */
                    dm_v_mul(A_l, e, n, n, v1);''', '''                    /* Se_m_l = v2 + Se_m_l * t + Se_m * L(t) */
                    dvec_scale(atran, Se_m_l[i], v3, n);
                    dvec_add(v2, v3, Se_m_l[i], n);
                    dvec_scale(atran_l[i], Se_m_l[i], v3, n);
                    dvec_add(Se_m_l[i], v3, Se_m_l[i], n);
               }


               /*---------------------------------------------------------------
                *
                *-------------------------------------------------------------*/
               if (thermal && derivs_thermal[i]) {
                    if (initialize) {
                         dvec_copy(L_p_l[i], Sl_p_l[i], n);
                         dvec_copy(L_m_l[i], Sl_m_l[i], n);
                    }

                    /* v1 = */
                    dm_v_mul(A_l, e, n, n, v1);''')], demo=BODY),
]
