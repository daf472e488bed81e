import os
A = 'src/xrtm_brdf.c'
H_ = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(spec))))
BODY = open(H_ + '/replay/C17.c').read()
X = open('/repo/' + A).read()
def chunk(a, b, after):
    i = X.index(a, X.index(after)); return X[i:X.index(b, i) + len(b)]
part = chunk('for (i = i_quad; i < n_quad; ++i) {', '}', 'void brdf_aux_calc_part')
pl = chunk('init_array3_d(kernel_f_l[i]', 'params_l2 = params_l[i];', 'void brdf_build_kernel_mats')
ax = chunk('for (k = 0; k < n_quad2; ++k) {\n                         call_aux_func(', 'call_aux_func(', 'void brdf_build_kernel_mats')
SEEDS = [
dict(id='c17-part-angles', prop='C17', needs='output angles that are reset after creation, two or more of them',
 breaks='the squared tangent of every angle but the first is a product with the tangent of the first', edits=[(A, part, part.replace('aux->tan_theta[i] * aux->tan_theta[i];', 'aux->tan_theta[i] * aux->tan_theta[i_quad];'))], demo=BODY),
dict(id='c17-second-kernel-params', prop='C17', needs='two or more surface kernels, derivatives with respect to the parameters of a kernel other than the first',
 breaks='the parameter derivatives of the first kernel are used for all kernels of the reflection matrix', edits=[(A, pl, pl.replace('if (flags_or(derivs, n_derivs))\n               params_l2', 'if (flags_or(derivs, n_derivs) && i == 0)\n               params_l2'))], demo=BODY),
dict(id='c17-stokes-offset', prop='C17', needs='more than one Stokes element and user-defined output angles (column offset)',
 breaks='the quadrature weights of the reflection matrix come from the wrong columns', edits=[(A, 'jj_offset = j_offset * n_stokes;', 'jj_offset = j_offset;')], demo=BODY),
]
