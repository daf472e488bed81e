"""C11: dense vector and matrix operations equal their definitions, for every size, with frames."""
from vf.contract import *
from vf.terms import *
import os
FLOOR = 60
NAME = 'dense linear algebra'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = ('misc/gmath_matrix.c', 'misc/gmath_vector.c', 'src/xrtm_matrix.c', os.path.join(HERE, 'stubs', 'blas.c'))
def inb(i, n): return and_(le(ZERO, i), lt(i, n if isinstance(n, T) else ic(n)))
N = lambda n='n': Int(n, 0, 1000000, small=(0, 4))
V = lambda n, d='n': Arr(n, 'd', d)
M = lambda n, r='m', c='n': Arr(n, 'd', r, c)
MC = lambda n, r='m', c='n': Arr(n, 'd', r, c, contig=True)
def vec(out, f, n='n'): return [(out, 1, lambda S, i: (inb(i, S.a[n]), f(S, i)))]
def mat(out, f, m='m', n='n', c=None):
    return [(out, 2, lambda S, i, j: (and_(and_(inb(i, S.a[m]), inb(j, S.a[n])), c(S, i, j) if c else TRUE), f(S, i, j)))]
def dot(n, f):
    k = bound_var(0, 1 << 30)
    return dsum(k, n, f(k))
def contracts():
    out = []
    def K(fn, params, ens, aliases=(), **kw):
        out.append(Contract(fn, params, ens, real_ranges={}, **kw))
        # in-place use: the output is the same object as one of the inputs
        for new, of in aliases:
            ps = [Alias(p.name, of) if p.name == new else p for p in params]
            es = [((of if e[0] == new else e[0]),) + tuple(e[1:]) for e in ens]
            c = Contract(fn, ps, es, real_ranges={}, **kw); c.label = '%s=%s' % (new, of); out.append(c)
    n = N()
    # ---- vectors
    K('dvec_zero', [V('a'), n], vec('a', lambda S, i: D0))
    K('dvec_init', [V('a'), Dbl('alpha'), n], vec('a', lambda S, i: S.v('alpha')))
    K('dvec_copy', [V('a2'), V('a1'), n], vec('a2', lambda S, i: S.v('a1', i)))
    K('dvec_scale', [Dbl('s'), V('a'), V('b'), n], vec('b', lambda S, i: dmul(S.v('s'), S.v('a', i))), [('b', 'a')])
    K('dvec_add', [V('a'), V('b'), V('c'), n], vec('c', lambda S, i: dadd(S.v('a', i), S.v('b', i))), [('c', 'a'), ('c', 'b')])
    K('dvec_sub', [V('a'), V('b'), V('c'), n], vec('c', lambda S, i: dsub(S.v('a', i), S.v('b', i))), [('c', 'a'), ('c', 'b')])
    K('dvec_scale_add', [V('a'), V('b'), V('c'), Dbl('alpha'), n], vec('c', lambda S, i: dadd(S.v('a', i), dmul(S.v('alpha'), S.v('b', i)))), [('c', 'a'), ('c', 'b')])
    K('dvec_lin_cmb', [V('a1'), Dbl('r1'), V('a2'), Dbl('r2'), V('b'), n], vec('b', lambda S, i: dadd(dmul(S.v('r1'), S.v('a1', i)), dmul(S.v('r2'), S.v('a2', i)))), [('b', 'a1'), ('b', 'a2')])
    dotv = lambda S, a, b, m: dot(S.a[m], lambda k: dmul(S.v(a, k), S.v(b, k)))
    K('dvec_dot', [V('a'), V('b'), n], [], ret=lambda S: dotv(S, 'a', 'b', 'n'))
    K('dvec_mag', [V('a'), n], [], ret=lambda S: dfn('sqrt', dotv(S, 'a', 'a', 'n')))
    K('dvec_unit', [V('a'), V('u'), n], vec('u', lambda S, i: ddiv(S.v('a', i), dfn('sqrt', dotv(S, 'a', 'a', 'n')))), [('u', 'a')])
    K('dvec_inv_elem', [V('a'), V('b'), n], vec('b', lambda S, i: ddiv(D1, S.v('a', i))), [('b', 'a')])
    K('dvec_mul_elem', [V('a'), V('b'), V('c'), n], vec('c', lambda S, i: dmul(S.v('a', i), S.v('b', i))), [('c', 'a'), ('c', 'b')])
    K('dvec_div_elem', [V('a'), V('b'), V('c'), n], vec('c', lambda S, i: ddiv(S.v('a', i), S.v('b', i))), [('c', 'a'), ('c', 'b')])
    # ---- matrices
    m, o = N('m'), N('o'); e = lambda p: (lambda S, i, j: S.v(p, i, j))
    dl = lambda i, j, v: ite(eq(i, j), v, D0)
    K('dmat_zero', [MC('a'), m, n], mat('a', lambda S, i, j: D0))
    K('dmat_init', [M('a'), Dbl('alpha'), m, n], mat('a', lambda S, i, j: dl(i, j, S.v('alpha'))))
    K('dmat_copy', [MC('a2'), MC('a1'), m, n], mat('a2', e('a1')))
    K('dmat_trans', [M('a'), M('b', 'n', 'm'), m, n], mat('b', lambda S, i, j: S.v('a', j, i), 'n', 'm'))
    K('dmat_add', [M('a'), M('b'), M('c'), m, n], mat('c', lambda S, i, j: dadd(S.v('a', i, j), S.v('b', i, j))), [('c', 'a'), ('c', 'b')])
    K('dmat_sub', [M('a'), M('b'), M('c'), m, n], mat('c', lambda S, i, j: dsub(S.v('a', i, j), S.v('b', i, j))), [('c', 'a'), ('c', 'b')])
    Q = lambda x: M(x, 'm', 'm'); D = lambda x: V(x, 'm')
    K('dmat_add_trans', [Q('a'), Q('c'), m, Alias('n', 'm')], mat('c', lambda S, i, j: dadd(S.v('a', i, j), S.v('a', j, i)), 'm', 'm'), [('c', 'a')])
    K('dmat_sub_trans', [Q('a'), Q('c'), m, Alias('n', 'm')], mat('c', lambda S, i, j: dsub(S.v('a', i, j), S.v('a', j, i)), 'm', 'm'), [('c', 'a')])
    K('dmat_add_diag', [Q('a'), D('b'), Q('c'), m], mat('c', lambda S, i, j: dadd(S.v('a', i, j), dl(i, j, S.v('b', i))), 'm', 'm'), [('c', 'a')])
    K('dmat_sub_diag', [Q('a'), D('b'), Q('c'), m], mat('c', lambda S, i, j: dsub(S.v('a', i, j), dl(i, j, S.v('b', i))), 'm', 'm'), [('c', 'a')])
    K('dmat_diag_sub', [D('a'), Q('b'), Q('c'), m], mat('c', lambda S, i, j: dsub(dl(i, j, S.v('a', i)), S.v('b', i, j)), 'm', 'm'), [('c', 'b')])
    K('dmat_i_sub', [Q('b'), Q('c'), m], mat('c', lambda S, i, j: dsub(dl(i, j, D1), S.v('b', i, j)), 'm', 'm'), [('c', 'b')])
    K('dmat_scale', [Dbl('alpha'), M('b'), M('c'), m, n], mat('c', lambda S, i, j: dmul(S.v('alpha'), S.v('b', i, j))), [('c', 'b')])
    K('dmat_scale_trans', [M('a'), M('b', 'n', 'm'), Dbl('alpha'), m, n], mat('b', lambda S, i, j: dmul(S.v('alpha'), S.v('a', j, i)), 'n', 'm'))
    K('dmat_scale_add', [M('a'), M('b'), M('c'), Dbl('alpha'), m, n], mat('c', lambda S, i, j: dadd(S.v('a', i, j), dmul(S.v('alpha'), S.v('b', i, j)))), [('c', 'a'), ('c', 'b')])
    K('dm_v_mul', [MC('a', 'm', 'o'), V('b', 'o'), m, o, V('c', 'm')], vec('c', lambda S, i: dot(S.a['o'], lambda k: dmul(S.v('a', i, k), S.v('b', k))), 'm'))
    gx = lambda tr: vec('c', (lambda S, i: dadd(dmul(S.v('beta'), S.v('c', i)), dmul(S.v('alpha'), dot(S.a['m' if tr else 'o'], lambda k: dmul(S.v('a', k, i) if tr else S.v('a', i, k), S.v('b', k)))))), 'o' if tr else 'm')
    for tr in (0, 1):
        K('dmat_gxvxmx', [Int('trans_a%d' % tr, tr, tr), MC('a', 'm', 'o'), V('b', 'm' if tr else 'o'), Dbl('alpha'), V('c', 'o' if tr else 'm'), Dbl('beta'), m, o], gx(tr))
    K('dm_v_diag_mul', [D('a'), D('b'), D('c'), m], vec('c', lambda S, i: dmul(S.v('a', i), S.v('b', i)), 'm'), [('c', 'b'), ('c', 'a')])
    K('dm_v_dinv_mul', [D('a'), D('b'), D('c'), m], vec('c', lambda S, i: ddiv(S.v('b', i), S.v('a', i)), 'm'), [('c', 'b'), ('c', 'a')])
    K('dmat_mul', [MC('a', 'm', 'o'), MC('b', 'o', 'n'), m, n, o, MC('c', 'm', 'n')], mat('c', lambda S, i, j: dot(S.a['o'], lambda k: dmul(S.v('a', i, k), S.v('b', k, j)))))
    for ta in (0, 1):
        for tb in (0, 1):
            def f(S, i, j, ta=ta, tb=tb):
                return dadd(dmul(S.v('beta'), S.v('c', i, j)), dmul(S.v('alpha'), dot(S.a['o'], lambda k: dmul(S.v('a', k, i) if ta else S.v('a', i, k), S.v('b', j, k) if tb else S.v('b', k, j)))))
            A = MC('a', 'o', 'm') if ta else MC('a', 'm', 'o'); B = MC('b', 'n', 'o') if tb else MC('b', 'o', 'n')
            K('dmat_gxgxmx', [Int('trans_a%d' % ta, ta, ta), A, Int('trans_b%d' % tb, tb, tb), B, Dbl('alpha'), MC('c', 'm', 'n'), Dbl('beta'), m, n, o], mat('c', f))
    K('dmat_mul_diag', [M('a'), V('b', 'n'), M('c'), m, n], mat('c', lambda S, i, j: dmul(S.v('a', i, j), S.v('b', j))), [('c', 'a')])
    K('dmat_mul_dinv', [M('a'), V('b', 'n'), M('c'), m, n], mat('c', lambda S, i, j: ddiv(S.v('a', i, j), S.v('b', j))), [('c', 'a')])
    K('dmat_diag_mul', [V('a', 'm'), M('b'), M('c'), m, n], mat('c', lambda S, i, j: dmul(S.v('a', i), S.v('b', i, j))), [('c', 'b')])
    K('dmat_dinv_mul', [V('a', 'm'), M('b'), M('c'), m, n], mat('c', lambda S, i, j: ddiv(S.v('b', i, j), S.v('a', i))), [('c', 'b')])
    for ta in (0, 1):
        K('dmat_gxdxmx', [Int('trans_a%d' % ta, ta, ta), M('a', *(('n', 'm') if ta else ('m', 'n'))), V('b', 'n'), Dbl('alpha'), M('c'), Dbl('beta'), m, n],
          mat('c', lambda S, i, j, ta=ta: dadd(dmul(S.v('beta'), S.v('c', i, j)), dmul(S.v('alpha'), dmul(S.v('a', j, i) if ta else S.v('a', i, j), S.v('b', j))))))
    K('dmat_vxvtmx', [V('a', 'm'), V('b', 'n'), Dbl('alpha'), M('c'), Dbl('beta'), m, n],
      mat('c', lambda S, i, j: dadd(dmul(S.v('beta'), S.v('c', i, j)), dmul(S.v('alpha'), dmul(S.v('a', i), S.v('b', j))))))
    K('dsym_add', [Q('a'), Q('b'), Q('c'), m, Int('flag', small=(0, 1))],
      mat('c', lambda S, i, j: ite(le(i, j), dadd(S.v('a', i, j), S.v('b', i, j)), dadd(S.v('a', j, i), S.v('b', j, i))), 'm', 'm', c=lambda S, i, j: or_(le(i, j), not_(eq0(S.a['flag'])))))
    K('dsym_sub', [Q('a'), Q('b'), Q('c'), m, Int('flag', small=(0, 1))],
      mat('c', lambda S, i, j: ite(le(i, j), dsub(S.v('a', i, j), S.v('b', i, j)), dsub(S.v('a', j, i), S.v('b', j, i))), 'm', 'm', c=lambda S, i, j: or_(le(i, j), not_(eq0(S.a['flag'])))))
    K('dmat_sym', [Q('a'), m, Dbl('alpha')], mat('a', lambda S, i, j: dmul(S.v('alpha'), S.v('a', j, i)), 'm', 'm', c=lambda S, i, j: le(j, i)))
    A2 = lambda: MC('a', 'm', 'o'); B2 = lambda x='b': MC(x, 'o', 'm'); C2 = MC('c', 'm', 'm')
    pr = lambda S, i, j, a='a', b='b': dot(S.a['o'], lambda k: dmul(S.v(a, i, k), S.v(b, k, j)))
    fl = Int('flag', 0, 0)
    K('dsym_mul', [A2(), B2(), m, o, C2, fl], mat('c', pr, 'm', 'm'))
    K('dsym_mma', [MC('a1', 'm', 'o'), B2('b1'), MC('a2', 'm', 'o'), B2('b2'), m, o, C2, fl], mat('c', lambda S, i, j: dadd(pr(S, i, j, 'a1', 'b1'), pr(S, i, j, 'a2', 'b2')), 'm', 'm'))
    K('dsym_mms', [MC('a1', 'm', 'o'), B2('b1'), MC('a2', 'm', 'o'), B2('b2'), m, o, C2, fl], mat('c', lambda S, i, j: dsub(pr(S, i, j, 'a1', 'b1'), pr(S, i, j, 'a2', 'b2')), 'm', 'm'))
    up = lambda S, i, j: le(i, j)
    K('dsym_m_a', [MC('a1', 'm', 'o'), B2('b1'), Q('a2'), m, o, C2, fl], mat('c', lambda S, i, j: ite(le(i, j), dadd(pr(S, i, j, 'a1', 'b1'), S.v('a2', i, j)), pr(S, i, j, 'a1', 'b1')), 'm', 'm'))
    K('dsym_m_s', [MC('a1', 'm', 'o'), B2('b1'), Q('a2'), m, o, C2, fl], mat('c', lambda S, i, j: ite(le(i, j), dsub(pr(S, i, j, 'a1', 'b1'), S.v('a2', i, j)), pr(S, i, j, 'a1', 'b1')), 'm', 'm'))
    K('dsym_mta', [A2(), B2(), m, o, C2], mat('c', lambda S, i, j: dadd(pr(S, i, j), pr(S, j, i)), 'm', 'm'))
    # ---- block insertion
    ib = Int('ib', 0, 1000, small=(0, 2)); jb = Int('jb', 0, 1000, small=(0, 2))
    big = lambda S: mul(S.a['m'], add(S.a['ib'], ONE)); bign = lambda S: mul(S.a['n'], add(S.a['jb'], ONE))
    rel = lambda S, i, j: (sub(i, mul(S.a['ib'], S.a['m'])), sub(j, mul(S.a['jb'], S.a['n'])))
    def ins(f):
        def g(S, i, j):
            a, b = rel(S, i, j)
            return and_(inb(a, S.a['m']), inb(b, S.a['n'])), f(S, a, b)
        return [('a', 2, g)]
    small = lambda x: Int(x, 1, 10000, small=(1, 3))
    K('insert_matrix1_d', [small('m'), small('n'), ib, jb, Arr('a', 'd', big, bign), Dbl('alpha'), M('b')], ins(lambda S, a, b: dmul(S.v('alpha'), S.v('b', a, b))))
    K('insert_matrix2_d', [small('m'), small('n'), ib, jb, Arr('a', 'd', big, bign), Dbl('alpha'), V('d', 'n'), M('b')], ins(lambda S, a, b: dmul(S.v('alpha'), dmul(S.v('d', b), S.v('b', a, b)))))
    def insv(S, i):
        a = sub(i, mul(S.a['ib'], S.a['m'])); return inb(a, S.a['m']), dmul(S.v('alpha'), S.v('b', a))
    K('insert_vector1_d', [small('m'), ib, Arr('a', 'd', big), Dbl('alpha'), V('b', 'm')], [('a', 1, insv)])
    # band storage: element (i, j) of the full matrix is stored at a[j][kl + ku + i - j]
    def insb(f):
        def g(S, c, r):
            i = add(sub(r, add(S.a['kl'], S.a['ku'])), c)        # full row
            a = sub(i, mul(S.a['ib'], S.a['m'])); b = sub(c, mul(S.a['jb'], S.a['n']))
            return and_(inb(a, S.a['m']), inb(b, S.a['n'])), f(S, a, b)
        return [('a', 2, g)]
    kl, ku = Int('kl', 0, 10000, small=(3, 5)), Int('ku', 0, 10000, small=(3, 5))
    band = Arr('a', 'd', bign, lambda S: add(ONE, add(scale(2, S.a['kl']), S.a['ku'])))
    K('insert_matrix_band_storage1_d', [small('m'), small('n'), kl, ku, ib, jb, band, Dbl('alpha'), M('b')], insb(lambda S, a, b: dmul(S.v('alpha'), S.v('b', a, b))))
    K('insert_matrix_band_storage2_d', [small('m'), small('n'), kl, ku, ib, jb, band, Dbl('alpha'), V('d', 'n'), M('b')], insb(lambda S, a, b: dmul(S.v('alpha'), dmul(S.v('d', b), S.v('b', a, b)))))
    # ---- complex <-> real
    z2 = lambda nm: Arr(nm, 'd', 'm', lambda S: scale(2, S.a['n']))
    K('zmat_real', [z2('z'), M('d'), m, n], mat('d', lambda S, i, j: S.v('z', i, scale(2, j))))
    K('zmat_imag', [z2('z'), M('d'), m, n], mat('d', lambda S, i, j: S.v('z', i, add(ONE, scale(2, j)))))
    # element (i, j) of a complex matrix is the pair of doubles (i, 2 j), (i, 2 j + 1)
    zm = lambda nm, r, c: Arr(nm, 'd', r, lambda S: scale(2, S.a[c]))
    def zmat(out, f, m='m', n='n'):
        es = []
        for p in (0, 1):
            def gen(S, i, j, p=p): return and_(and_(inb(i, S.a[m]), inb(j, scale(2, S.a[n]))), eq(trem(j, ic(2)), ic(p))), None
            def cell(S, i, j, p=p): return (i, add(ic(p), scale(2, j))), and_(inb(i, S.a[m]), inb(j, S.a[n])), f(S, i, j, p)
            es.append((out, 2, gen, cell))
        return es
    ze = lambda S, x, i, j, p: S.v(x, i, add(ic(p), scale(2, j)))
    K('dmat_complex', [M('dr'), M('di'), zm('z', 'm', 'n'), m, n], zmat('z', lambda S, i, j, p: S.v('di' if p else 'dr', i, j)))
    K('dzmat_diag_mul', [V('a', 'm'), zm('b', 'm', 'n'), zm('c', 'm', 'n'), m, n], zmat('c', lambda S, i, j, p: dmul(S.v('a', i), ze(S, 'b', i, j, p))), [('c', 'b')])
    zp = lambda S, i, j, p: dot(S.a['o'], lambda k: dmul(S.v('a', i, k), ze(S, 'b', k, j, p)))
    K('dzmat_mul', [M('a', 'm', 'o'), zm('b', 'o', 'n'), m, n, o, zm('c', 'm', 'n')], zmat('c', zp))
    tmp = [MC('don', 'o', 'n'), MC('dmn1', 'm', 'n'), MC('dmn2', 'm', 'n')]
    any_ = lambda x, r, c: (x, 2, lambda S, i, j: (and_(inb(i, S.a[r]), inb(j, S.a[c])), None))
    ants = [any_('don', 'o', 'n'), any_('dmn1', 'm', 'n'), any_('dmn2', 'm', 'n')]
    K('dzmat_mul2', [MC('a', 'm', 'o'), zm('b', 'o', 'n'), m, n, o, zm('c', 'm', 'n')] + tmp, zmat('c', zp) + ants)
    lc = lambda al, be, x, y: dadd(dmul(dc(Fraction(al)), x), dmul(dc(Fraction(be)), y))
    for al in (1, -1):
        for be in (0, 1, -1):        # the factors the routine implements (it leaves c unchanged for every other pair)
            A, B = Dbl('alpha', val=al), Dbl('beta', val=be)
            K('dmat_complex2', [M('dr'), M('di'), A, zm('z', 'm', 'n'), B, m, n], zmat('z', lambda S, i, j, p, al=al, be=be: lc(al, be, S.v('di' if p else 'dr', i, j), ze(S, 'z', i, j, p))))
            K('dzmat_gxgxmx', [Int('trans_a', 0, 0), MC('a', 'm', 'o'), Int('trans_b', 0, 0), zm('b', 'o', 'n'), A, zm('c', 'm', 'n'), B, m, n, o] + tmp, zmat('c', lambda S, i, j, p, al=al, be=be: lc(al, be, zp(S, i, j, p), ze(S, 'c', i, j, p))) + ants)
    return out

def run(ctx):
    ctx.par(contracts(), lambda ctx, C: ctx.check(C, *U))
    ctx.assumptions.add('external BLAS routines dgemm_/dgemv_ compute their defining formulas (stubs/blas.c is executed in their place)')
