import os, sys, re; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
sys.path.insert(0, os.path.join(os.path.dirname(spec), '..', '..'))
from props import c20 as _c, c20_native as _n
def _files(lang, prefix, src):
    SP = _c.spec(prefix); T = open('/repo/' + src).read(); wn = {}
    for n, S in SP.items():
        m = re.search(r'\b%s_%s_bindx_%s\(' % (prefix, n, 'f77_' if lang == 'f77' else lang), T, re.I); wn[n] = n if lang == 'cpp' else m.group(0)[:-1] if m else None
    return {'stub.c': _n.stubs(prefix, SP), ('main.cpp' if lang == 'cpp' else 'main.c'): _n.main_cpp(prefix, SP) if lang == 'cpp' else _n.main_c(lang, prefix, SP, wn)}
def _sh(src):
    return '''#!/bin/bash
# exit 0 when every wrapper hands its arguments on
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-w -O1 -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC -Isrc -Imisc -Iinterfaces"
gcc $F -c -o $T/stub.o $D/stub.c || exit 2
if [ -e $D/main.cpp ]; then g++ $F -fpermissive -c -o $T/main.o $D/main.cpp; else gcc $F -c -o $T/main.o $D/main.c; fi || exit 2
%s $F -c -o $T/w.o %s || exit 2
gcc $F -c -o $T/a.o misc/gutil_alloc.c && gcc $F -c -o $T/e.o misc/gutil_error.c || exit 2
g++ -o $T/t $T/*.o -Wl,--unresolved-symbols=ignore-all -lm || exit 2
$T/t
''' % ('g++' if src.endswith('pp') else 'gcc', src)
CPP = ('cpp', 'xrtm', 'interfaces/xrtm_int_cpp.cpp'); F77 = ('f77', 'xrtm', 'interfaces/xrtm_int_f77_util.c'); F90 = ('f90', 'xrtm', 'interfaces/xrtm_int_f90_util.c')
def seed(id, which, needs, breaks, edits): return dict(id=id, prop='C20', needs=needs, breaks=breaks, sh=_sh(which[2]), files=_files(*which), edits=edits)
SEEDS = [
seed('c20-flux-dims', F77, 'fluxes with derivatives through the Fortran 77 interface, number of output levels different from the number of derivatives', 'the index table of the upward flux derivatives is built with its two dimensions exchanged',
 [('interfaces/xrtm_int_f77_util.c', '''     double **flux_m_l2;
     solver = *solver_;
     flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);''', '''     double **flux_m_l2;
     solver = *solver_;
     flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_derivs, d->n_out_levels);''')]),
seed('c20-kernel-swap', CPP, 'C++, a kernel parameter derivative with different derivative and parameter index', 'the derivative and parameter indices are exchanged on the way to the native call',
 [('interfaces/xrtm_int_cpp.cpp', 'r = xrtm_set_kernel_params_l_11(&d, i_kernel, i_deriv, i_param, param_l);', 'r = xrtm_set_kernel_params_l_11(&d, i_kernel, i_param, i_deriv, param_l);')]),
seed('c20-ltau-l-error', CPP, 'C++, reading an optical depth derivative with an index outside the range', 'the error of xrtm_get_ltau_l is compared with the integer error value and not thrown',
 [('interfaces/xrtm_int_cpp.cpp', '''     r = xrtm_get_ltau_l(&d, i_layer, i_deriv);
     if (r == XRTM_DBL_ERROR)''', '''     r = xrtm_get_ltau_l(&d, i_layer, i_deriv);
     if (r == XRTM_INT_ERROR)''')]),
seed('c20-coef-l-stride', F90, 'Fortran 90, coefficient derivatives of all layers, more than one scattering matrix element', 'the rows of the coefficient derivatives are as long as there are elements, not coefficients',
 [('interfaces/xrtm_int_f90_util.c', '''     coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
     if (xrtm_set_coef_l_n1''', '''     coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_coef, d->n_elem);
     if (xrtm_set_coef_l_n1''')]),
]
