import os
A = 'src/xrtm_radiance.c'
H_ = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(spec))))
BODY = open(H_ + '/replay/mat.h').read() + open(H_ + '/replay/C16.c').read().replace('#include "mat.h"', '')
X = open('/repo/' + A).read()
def chunk(a, b, after):
    i = X.index(a, X.index(after)); return X[i:X.index(b, i) + len(b)]
bb = chunk('if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {', 'dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);', 'void radiance_boa_all')
T = chunk('if (  (derivs[i] & DERIV_TOP_S || derivs[i] & DERIV_BOTTOM_S) &&   (derivs', 'dvec_add(I1_p_l[i], S_p_l[i], I1_p_l[i], n_quad);', 'void radiance_toa_ref')
ll = chunk('if (derivs[i] == ADDING_L_L || derivs[i] == ADDING_L_B) {', 'dmat_add(w2, w3, w2,  n_quad, n_quad);', 'void radiance_boa_ref')
lf = X[X.index('void radiance_boa_ref'):X.index(ll, X.index('void radiance_boa_ref')) + len(ll)]
SEEDS = [
dict(id='c16-stale-product', prop='C16', needs='a derivative in which both the part above and the part below the level vary in their operators, without a source variation of the upper part',
 breaks='the product of the upper reflection with the derivative of the lower reflection is left over from another derivative (or never computed) instead of being formed',
 edits=[(A, lf, lf.replace(ll, ll.replace('                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);\n', '')))], demo=BODY),

dict(id='c16-incident-radiance-tangent', prop='C16', needs='a layer varying in operators and sources above another layer with a downwelling radiance prescribed at the top boundary',
 breaks='the derivative of the radiance between two layers multiplies the derivative of the transmission by the derivative of the incident radiance',
 edits=[(A, bb, bb.replace('dm_v_mul(T12_m_l[i], I1_m,', 'dm_v_mul(T12_m_l[i], I1_m_l[i],'))], demo=BODY),
dict(id='c16-toa-mixed-layers', prop='C16', needs='a derivative in which the upper part varies in its sources only and the lower part in its operators only (or the reverse)',
 breaks='the derivative of the reflected radiance at the top is dropped when different parts carry the source and operator variations',
 edits=[(A, T, T.replace('DERIV_TOP_L || derivs[i] & DERIV_BOTTOM_L)) {', 'DERIV_TOP_L && derivs[i] & DERIV_BOTTOM_L)) {'))], demo=BODY),
]
