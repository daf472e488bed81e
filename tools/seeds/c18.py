import os, re
H_ = '/verif'
MAT = open(H_ + '/replay/mat.h').read()
BODY = MAT + open(H_ + '/replay/C18.c').read().replace('#include "mat.h"', '')
def fe(path, fn, old, new):
    s = open('/repo/' + path).read()
    m = re.search(r'^(?:static )?void %s\(.*?^}\n' % fn, s, re.S | re.M)
    while m and ');' in m.group(0).split('\n')[0]: m = re.compile(r'^(?:static )?void %s\(.*?^}\n' % fn, re.S | re.M).search(s, m.start() + 10)
    f = m.group(0); assert f.count(old) == 1, (fn, f.count(old))
    # widen the change to a unique context
    i = f.index(old); lo = hi = 0
    while s.count(f[max(0, i - lo):i + len(old) + hi]) > 1: lo += 200; hi += 200
    a, b = f[max(0, i - lo):i], f[i + len(old):i + len(old) + hi]
    return (path, a + old + b, a + new + b)
A, U, S, G, R = 'src/xrtm_adding_a.c', 'src/xrtm_utility_a.c', 'src/xrtm_source_a.c', 'src/xrtm_scatter_a.c', 'src/xrtm_radiance_a.c'
SEEDS = [
dict(id='c18-adding-transpose', prop='C18', needs='adjoint of adding where the upper layer varies completely and the lower one only in its source, operators that are not symmetric',
 breaks='the adjoint of the reflection of the lower layer from above uses the reflection of the upper layer from below without transposition',
 edits=[fe(A, 'add_all_p_l_up_a', 'dmat_gxgxmx(0, w1, 1, R21, 1., DXX_a, 1., n, n, n);', 'dmat_gxgxmx(0, w1, 0, R21, 1., DXX_a, 1., n, n, n);')], demo=BODY),
dict(id='c18-ref-solve', prop='C18', needs='adjoint of adding to a reflecting surface where only the source of the upper layer but all of the lower layer varies',
 breaks='the adjoint system is solved with the saved matrix instead of its transpose',
 edits=[fe(A, 'add_ref_p_l_a', "dmat_getrs2('t'", "dmat_getrs2('n'")], demo=BODY),
dict(id='c18-delta-m-overwrite', prop='C18', needs='all six expansion coefficients of the type that leaves the last two unscaled, adjoints of the last one already accumulated before the call',
 breaks='the accumulated adjoint of the sixth coefficient is overwritten',
 edits=[fe(U, 'delta_m_coef_a', 'coef_a[5][j] += coef_prime_a[5][j];', 'coef_a[5][j]  = coef_prime_a[5][j];')], demo=BODY),
dict(id='c18-phase-mats-factor', prop='C18', needs='a Fourier order above zero with a nonzero adjoint of the backward scattering matrix',
 breaks='the factor two of the azimuth orders above zero is missing from the adjoint of the backward scattering matrix',
 edits=[fe(G, 'build_phase_mats_scalar_a', 'c = P_mp_a[i][j] * a;', 'c = P_mp_a[i][j];')], demo=BODY),
dict(id='c18-source-transmittance', prop='C18', needs='asymmetric layer operators (the routine with separate operators for both directions) and a transmittance that differs from one',
 breaks='the adjoint of the layer transmittance takes the vector already multiplied by the transmittance',
 edits=[fe(S, 'build_global_source_a2', '*atran_a += dvec_dot(F_p, v1, n_quad_v);', '*atran_a += dvec_dot(F_p, v2, n_quad_v);')], demo=BODY),
dict(id='c18-boa-operator', prop='C18', needs='radiances at an internal level, operators that are not symmetric',
 breaks='the adjoint of the reflection of the layers above uses the reflection of those below without transposition',
 edits=[fe(R, 'radiance_boa_all_a', 'dmat_gxgxmx(0, Q_a, 1, R23_m, 1., R12_p_a, 1., n_quad, n_quad, n_quad);', 'dmat_gxgxmx(0, Q_a, 0, R23_m, 1., R12_p_a, 1., n_quad, n_quad, n_quad);')], demo=BODY),
dict(id='c18-gamma-lost', prop='C18', needs='adjoints already accumulated in the difference operator before the adjoint of the eigenmatrix is applied',
 breaks='the adjoint accumulated so far is dropped',
 edits=[fe(U, 'build_gamma_a', 'tmr_a, 1., n_quad, n_quad, n_quad);', 'tmr_a, 0., n_quad, n_quad, n_quad);')], demo=BODY),
dict(id='c18-gc-vecs-order', prop='C18', needs='polarized phase vectors at Fourier order two or above',
 breaks='the normalization of the generalized spherical functions is wrong for orders above one in the adjoint only',
 edits=[fe(G, 'build_phase_vecs_vector_gc_a', 'b = 1. / factorial(2 * i_four);', 'b = 1. / (factorial(i_four) * (i_four + 1));')], demo=BODY),
]
