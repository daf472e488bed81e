import os
A, B = 'src/xrtm_scatter.c', 'src/xrtm_utility.c'
H_ = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(spec))))
BODY = open(H_ + '/replay/C25.c').read()
X = open('/repo/' + A).read(); Y = open('/repo/' + B).read()
def chunk(T, a, b, after):
    i = T.index(a, T.index(after)); return T[i:T.index(b, i) + len(b)]
ld3 = chunk(X, 'phase_matrix_symmetry_ldx3(n_quad1', ');', 'void phase_matrix_symmetry3')
txl = chunk(Y, 'dmat_mul_D_A(n_quad, n_stokes, r_p_l[i], w1);', 'n_quad_v);', 'void build_txr')
it3 = chunk(X, 'A[i+1][2][2] = (f * A[i][2][2] - d', ';', 'static void iteration3')
mv = chunk(Y, 'void dmat_mul_D_A2(', 'ii += n_stokes1;', 'void dmat_mul_D_A(')
SEEDS = [
dict(id='c25-rectangular-symmetry', prop='C25', needs='a phase matrix between two direction sets of different sizes (user-defined output angles)',
 breaks='the opposite-hemisphere matrices are laid out with the row length of the wrong direction set', edits=[(A, ld3, ld3.replace('n_quad2 * n_stokes2, f', 'n_quad1 * n_stokes2, f'))], demo=BODY),
dict(id='c25-txr-derivative', prop='C25', needs='three or four Stokes elements and at least two active derivatives, the second of which inherits the buffer of the first',
 breaks='the mirrored reflection derivative of the first active derivative is used for all of them', edits=[(B, txl, txl.replace('dmat_mul_D_A(n_quad, n_stokes, r_p_l[i], w1);', 'if (i == 0 || ! derivs[0]) dmat_mul_D_A(n_quad, n_stokes, r_p_l[i], w1);'))], demo=BODY),
dict(id='c25-inner-recurrence', prop='C25', needs='three or more Stokes elements, azimuth order 1 or more and at least four expansion coefficients',
 breaks='the third diagonal element of the generalised spherical functions uses the wrong coupling term from the second recurrence step on', edits=[(A, it3, it3.replace('A[i][1][2]', 'A[i-1][1][2]'))], demo=BODY),
dict(id='c25-in-place-mirror', prop='C25', needs='four Stokes elements and an in-place product with the mirror matrix (the phase matrices of the opposite hemisphere)',
 breaks='only the U row of each direction changes sign, the V row keeps it', edits=[(B, mv, mv.replace('jj++;', 'jj++; if (jj - ii == 3) break;'))], demo=BODY),
]
