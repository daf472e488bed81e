"""C13: doubling a homogeneous layer: each step is the exact operator identity and its exact derivative."""
from vf.contract import *
from vf.terms import *
from vf import solve, mat
from vf.mat import mm, mT, inv, E, sm, add_
FLOOR = 70
NAME = 'doubling'
U = 'src/xrtm_doubling.c'
V = ['Se_m', 'Se_p', 'Sl_m', 'Sl_p', 'L_m', 'L_p']
KIND = {x + y: 'M' if x in 'RT' else 'V' for x in V + ['R', 'T'] for y in ('', '_l')}
M = lambda n: Arr(n, 'd', 1)
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
ATOM = {x: mk('app', ('spec:' + x,), 'd') for x in V + ['R', 'T', 't', 'f']}
KIND.update({'spec:' + x: KIND[x] for x in V + ['R', 'T']})
def spec(ini, sym=False):
    """the exact composition of a layer with itself, over the symbols in ATOM; ini: first doubling (linear source = constant source)"""
    R, T, t, f = (ATOM[x] for x in 'RTtf'); v = ATOM
    A = mm(T, inv(dsub(E, mm(R, R))))
    Lp, Lm = ite(ini, v['Sl_p'], v['L_p']), ite(ini, v['Sl_m'], v['L_m'])
    Sp = add_(v['Sl_p'], sm(f, Lp))
    o = dict(R=add_(R, mm(mm(A, R), T)), T=mm(A, T),
             Se_p=add_(v['Se_p'], mm(A, add_(mm(R, v['Se_m']), sm(t, v['Se_p'])))),
             Se_m=add_(sm(t, v['Se_m']), mm(A, add_(mm(R, sm(t, v['Se_p'])), v['Se_m']))),
             Sl_p=add_(v['Sl_p'], mm(A, add_(mm(R, v['Sl_m']), Sp))),
             Sl_m=add_(v['Sl_m'], sm(f, Lm), mm(A, add_(mm(R, Sp), v['Sl_m']))),
             L_p=add_(Lp, mm(A, add_(mm(R, Lm), Lp))),
             L_m=add_(Lm, mm(A, add_(mm(R, Lp), Lm))))
    return o
def nz(S, n): return not_(eq0(S.a[n]))
def run(ctx):
    n = Int('n', 1, 100000)
    H = lambda: mat.handlers(ivar('n'))
    tail = [Int('solar'), Int('thermal'), Int('initialize')]
    val = lambda S: {ATOM[x]: S.v(x, 0) for x in V + ['R', 'T']} | {ATOM['t']: S.v('atran'), ATOM['f']: S.v('lin_fac')}
    def cond(S, x): return TRUE if x in 'RT' else nz(S, 'solar') if x.startswith('Se') else nz(S, 'thermal')
    def values(sy):
        def e(x):
            return lambda S, i: (and_(eq(i, ZERO), cond(S, x)), subst(spec(nz(S, 'initialize'))[x], val(S)))
        return [(x, 1, e(x)) for x in ['R', 'T'] + V]
    def derivs(sy):
        def e(x):
            def f(S, k, i):
                lay, bm, th = (not_(eq0(S.v(d, k))) for d in ('derivs_layers', 'derivs_beam', 'derivs_thermal'))
                c = lay if x in 'RT' else and_(nz(S, 'solar'), bm) if x.startswith('Se') else and_(nz(S, 'thermal'), th)
                tan = {ATOM[y]: S.v(y + '_l', k, 0) for y in V}
                for y in 'RT': tan[ATOM[y]] = ite(lay, S.v(y + '_l', k, 0), D0)
                tan[ATOM['t']] = S.v('atran_l', k); tan[ATOM['f']] = S.v('lin_fac_l', k)
                d = solve.diff(spec(nz(S, 'initialize'))[x], lambda a: tan.get(a, D0))
                return and_(and_(inb(k, S.a['n_derivs']), eq(i, ZERO)), c), subst(d, val(S))
            return f
        return [(x + '_l', 2, e(x)) for x in ['R', 'T'] + V]
    base = lambda: [M('R'), M('T')] + [M(v) for v in V]
    nd = Int('n_derivs', 0, 1000000)
    tab = lambda: [Arr(x + '_l', 'd', 'n_derivs', 1) for x in ['R', 'T'] + V]
    vl = lambda x: Arr(x, 'd', 'n_derivs')
    fl = lambda: [Arr(x, 'uc', 'n_derivs') for x in ('derivs_layers', 'derivs_beam', 'derivs_thermal')]
    W = Other('work', mat.workstruct)
    lab = {}
    def K(fn, params, ens, sy=False):
        # the symmetric-form variants require symmetric R and T (and tangents) and have no thermal sources
        req = (lambda S: [eq0(S.a['thermal'])]) if sy else None
        mat.SYM.clear()
        if sy: mat.SYM.update(['R', 'T', 'R_l', 'T_l', 'spec:R', 'spec:T'])
        ctx.check(Contract(fn, params, ens, requires=req, contracts=H(), kinds=KIND, replay=False), U)
    K('layer_double', base() + [n, Dbl('atran'), Dbl('lin_fac')] + tail + [W], values(0))
    full = lambda: base() + tab() + [n, nd, Dbl('atran'), vl('atran_l'), Dbl('lin_fac'), vl('lin_fac_l')] + tail + fl() + [W]
    K('layer_double_l', full(), values(0) + derivs(0))
    K('layer_double_s', base() + [n, Dbl('atran'), Dbl('lin_fac')] + tail + [W], values(1), True)
    K('layer_double_s_l', full(), values(1) + derivs(1), True)
    mat.assumptions(ctx)
    ctx.assume('symmetric-form variants: R, T and their tangents are symmetric and no thermal source is requested (the only configuration compiled in has them switched off by default)')
