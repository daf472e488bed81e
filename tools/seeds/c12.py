import os
A = 'src/xrtm_adding.c'
H_ = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(spec))))
BODY = open(H_ + '/replay/mat.h').read() + open(H_ + '/replay/C12.c').read().replace('#include "mat.h"', '')
SEEDS = [
dict(id='c12-saved-term-mixup', prop='C12', needs='two calls of layer_add_all2 on the same pair with saved terms: the first computes them, the second reuses them (other sources)',
 breaks='the downward pass keeps its saved product in the slot of the upward pass, so that the reusing call combines the wrong product',
 edits=[(A, '''     AXX = d->A13;
     BXX = d->B31;
}''', '''     AXX = d->A13;
     BXX = d->B13;
}''')], demo=BODY),
dict(id='c12-source-tangent', prop='C12', needs='layer_add_ref with a derivative that varies only the sources of the upper layer and both operators and sources of the lower one (combination S_B)',
 breaks='the reflected part of the derivative of the upward source uses the derivative of the upper source where the source itself is needed',
 edits=[(A, '''     /* S31_l = S21_l + E31 * C31 + A31 * (S32_l * t12 + R23_l * S12 + R23 * S12_l) */
     dvec_scale(atran, S32_l, v1, n);
     dm_v_mul(R23_l, S12, n, n, v2);
     dvec_add(v1, v2, v1, n);
     dm_v_mul(R23, S12_l, n, n, v2);
     dvec_add(v1, v2, v1, n);

     dm_v_mul(AXX, v1, n, n, v2);

     dvec_add(S21_l, v2, v1, n);

     dm_v_mul(EXX, CXX, n, n, v2);
     dvec_add(v1, v2, S31_l, n);

     /* R13_l = E31 * B13 + D31 * T12 */
     dmat_mul(EXX, BXX, n, n, n, w1);
     dmat_mul(DXX, T12, n, n, n, w2);
     dmat_add(w1, w2, R13_l, n, n);
}''', '''     /* S31_l = S21_l + E31 * C31 + A31 * (S32_l * t12 + R23_l * S12 + R23 * S12_l) */
     dvec_scale(atran, S32_l, v1, n);
     dm_v_mul(R23_l, S12_l, n, n, v2);
     dvec_add(v1, v2, v1, n);
     dm_v_mul(R23, S12_l, n, n, v2);
     dvec_add(v1, v2, v1, n);

     dm_v_mul(AXX, v1, n, n, v2);

     dvec_add(S21_l, v2, v1, n);

     dm_v_mul(EXX, CXX, n, n, v2);
     dvec_add(v1, v2, S31_l, n);

     /* R13_l = E31 * B13 + D31 * T12 */
     dmat_mul(EXX, BXX, n, n, n, w1);
     dmat_mul(DXX, T12, n, n, n, w2);
     dmat_add(w1, w2, R13_l, n, n);
}''')], demo=BODY),
]
