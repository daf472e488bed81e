"""C16: level radiances from the layer operators by the interaction principle, exact derivatives; mean radiance and flux sums."""
from vf.contract import *
from vf.terms import *
from vf import solve, mat, build
from vf.mat import mm, mT, inv, E, sm, add_
FLOOR = 90
NAME = 'radiance'
U = 'src/xrtm_radiance.c'
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
def isv(x): return x[0] in 'SI'
def A(x): return mk('app', ('spec:' + x,), 'd')
def run(ctx):
    K = {}
    def reg(*xs):
        for x in xs:
            for p in ('', 'spec:'):
                for y in ('', '_l', 'l_'): K[p + x + y] = 'V' if isv(x) else 'M'
    reg('R_m', 'T_p', 'S_p', 'I1_m', 'I2_p', 'I1_p', 'R12_p', 'T12_m', 'R23_m', 'S12_m', 'I3_p', 'I2_m', 'I1m')
    B = {k: build.consts('DERIV_' + k) for k in ('TOP_S', 'TOP_L', 'BOTTOM_S', 'BOTTOM_L')}
    def bit(v, *names):
        m = 0
        for x in names: m |= B[x]
        return not_(eq0(band(v, ic(m))))
    nq, nd = Int('n_quad', 1, 100000), Int('n_derivs', 0, 1000000)
    V = lambda *xs: [Arr(x, 'd', 1) for x in xs]
    L = lambda *xs: [Arr(x, 'd', 'n_derivs', 1) for x in xs]
    DE = Arr('derivs', 'uc', 'n_derivs'); W = Other('work', mat.workstruct); ST = Other('save_tree', mat.nullstruct)
    def ens(outs, sp, ins, gates, codes=None):
        """outs: {output: table}; sp: {output: value over A(...)}; gates: input -> activity bits that make its derivative nonzero (None: always)"""
        cl = []
        val = lambda S: {A(x): S.v(x, 0) for x in ins}
        for o in outs:
            cl.append((o, 1, (lambda o: lambda S, i: (eq(i, ZERO), subst(sp[o], val(S))))(o)))
            def f(o, c):
                def g(S, k, i):
                    d = S.v('derivs', k) if c is None else ic(c)
                    t = {A(x): (S.v(x + '_l', k, 0) if not gates.get(x) else ite(bit(d, *gates[x]), S.v(x + '_l', k, 0), D0)) for x in ins}
                    v = subst(solve.diff(sp[o], lambda a: t.get(a, D0)), val(S))
                    return and_(and_(inb(k, S.a['n_derivs']), eq(i, ZERO)), TRUE if c is None else eq(S.v('derivs', k), ic(c))), v
                return g
            for c in codes or [None]: cl.append((outs[o], 2, f(o, c)))
        return cl
    H = lambda: mat.handlers(ivar('n_quad'))
    def C(fn, ps, cl): ctx.check(Contract(fn, ps, cl, contracts=H(), kinds=K, replay=False), U)
    slab = {'I1_p': add_(mm(A('R_m'), A('I1_m')), mm(A('T_p'), A('I2_p')), A('S_p'))}
    gs = {'R_m': ['TOP_L'], 'T_p': ['TOP_L'], 'S_p': ['TOP_S']}
    C('radiance_slab', [nq, nd] + V('R_m', 'T_p', 'S_p') + L('R_m_l', 'T_p_l', 'S_p_l') + V('I1_m', 'I2_p') + L('I1_m_l', 'I2_p_l') + V('I1_p') + L('I1_p_l') + [DE, W],
      ens({'I1_p': 'I1_p_l'}, slab, ['R_m', 'T_p', 'S_p', 'I1_m', 'I2_p'], gs))
    toa = {'I1_p': add_(mm(A('R_m'), A('I1_m')), A('S_p'))}
    gt = {'R_m': ['TOP_L', 'BOTTOM_L'], 'S_p': ['TOP_S', 'BOTTOM_S']}
    C('radiance_toa_ref', [nq, nd] + V('R_m', 'S_p') + L('R_m_l', 'S_p_l') + V('I1_m') + L('I1_m_l') + V('I1_p') + L('I1_p_l') + [DE, W],
      ens({'I1_p': 'I1_p_l'}, toa, ['R_m', 'S_p', 'I1_m'], gt))
    inn = mm(inv(dsub(E, mm(A('R12_p'), A('R23_m')))), add_(mm(A('R12_p'), A('I3_p')), A('S12_m')))
    gb = {'R12_p': ['TOP_L'], 'T12_m': ['TOP_L'], 'S12_m': ['TOP_S'], 'R23_m': ['BOTTOM_L']}
    bref = {'I2_m': inn, 'I2_p': add_(mm(A('R23_m'), inn), A('I3_p'))}
    C('radiance_boa_ref', [nq, nd] + V('R12_p', 'S12_m') + L('R12_p_l', 'S12_m_l') + V('R23_m') + L('R23_m_l') + V('I3_p') + L('I3_p_l') + V('I2_p') + L('I2_p_l') + V('I2_m') + L('I2_m_l') + [DE, W],
      ens({'I2_p': 'I2_p_l', 'I2_m': 'I2_m_l'}, bref, ['R12_p', 'S12_m', 'R23_m', 'I3_p'], gb, range(16)))
    ina = mm(inv(dsub(E, mm(A('R12_p'), A('R23_m')))), add_(mm(A('R12_p'), A('I3_p')), mm(A('T12_m'), A('I1_m')), A('S12_m')))
    ball = {'I2_m': ina, 'I2_p': add_(mm(A('R23_m'), ina), A('I3_p'))}
    C('radiance_boa_all', [nq, nd] + V('R12_p', 'T12_m', 'R23_m', 'S12_m') + L('R12_p_l', 'T12_m_l', 'R23_m_l', 'S12_m_l') + V('I3_p', 'I1_m') + L('I3_p_l', 'I1_m_l') + V('I2_p', 'I2_m') + L('I2_p_l', 'I2_m_l') + [DE, ST, W],
      ens({'I2_p': 'I2_p_l', 'I2_m': 'I2_m_l'}, ball, ['R12_p', 'T12_m', 'R23_m', 'S12_m', 'I3_p', 'I1_m'], gb, range(16)))
    call = ens({'I1_p': 'I1_p_l'}, slab, ['R_m', 'T_p', 'S_p', 'I1_m', 'I2_p'], gs)
    call += [('I1m_', 1, lambda S, i: (eq(i, ZERO), S.v('I1_m', 0))), ('I1m_l_', 2, lambda S, k, i: (and_(inb(k, S.a['n_derivs']), eq(i, ZERO)), S.v('I1_m_l', k, 0)))]
    C('radiance_toa_all', [nq, nd] + V('R_m', 'T_p', 'S_p') + L('R_m_l', 'T_p_l', 'S_p_l') + V('I1_m', 'I2_p') + L('I1_m_l', 'I2_p_l') + V('I1_p', 'I1m_') + L('I1_p_l', 'I1m_l_') + [DE, W], call)
    # ---- quadrature sums
    k = lambda: bound_var()
    def sum_(S, f):
        q = k(); return dsum(q, S.a['n_quad'], f(q))
    pars = [Int('n_quad', 0, 100000), Arr('qx_v', 'd', 'n_quad'), Arr('qw_v', 'd', 'n_quad'), Dbl('F_0'), Dbl('mu_0'), Dbl('btran'), Arr('I', 'd', 'n_quad')]
    ctx.check(Contract('radiance_to_mean', pars, [], ret=lambda S: dmul(dc(Fraction(1, 2)), sum_(S, lambda q: dmul(S.v('qw_v', q), S.v('I', q)))), replay=False), U)
    PI = dc(Fraction(3.14159265358979323846))
    ctx.check(Contract('radiance_to_flux', pars, [], ret=lambda S: dmul(dmul(dc(2), PI), sum_(S, lambda q: dmul(dmul(S.v('qx_v', q), S.v('qw_v', q)), S.v('I', q)))), replay=False), U)
    mat.assumptions(ctx)
