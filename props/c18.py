"""C18: adjoint routines of the building blocks add the transposed derivative of the forward routine to the adjoints of its inputs.

Whole-object contracts: the forward definitions (those C12, C15 and C16 discharge on the forward routines) are differentiated in reverse mode;
each adjoint routine must add exactly the result to every input adjoint, keep what was accumulated before, reset the adjoints it consumes,
and change nothing else."""
from vf.contract import *
from vf.terms import *
from vf import solve, mat, build, structs, prove, ir
from vf.sym import Fam
from vf.mat import mm, mT, inv, E, sm, add_, dot, diag
FLOOR = 400
NAME = 'adjoints'
def spec(x): return mk('app', ('spec:' + x,), 'd')
def dsq(x): return dmul(x, x)
def isv(x): return x[0] in 'SIv'
def inb(i, n): return and_(le(ZERO, i), lt(i, n))

def vjp(outs, ins):
    """outs: [(forward term, adjoint of it)], ins: atoms -> {atom: transposed derivative applied to the adjoints}"""
    order, seen = [], set()
    def visit(t):
        if t in seen: return
        seen.add(t)
        for x in kids(t): visit(x)
        order.append(t)
    def kids(t):
        if t in ins: return []
        if t.op in ('dadd', 'dneg', 'dmul'): return list(t.a)
        if t.op == 'fn': return list(t.a[1:])
        return []
    adj = {}
    def acc(t, v): adj[t] = dadd(adj[t], v) if t in adj else v
    for t, s in outs: visit(t); acc(t, s)
    for t in reversed(order):
        if t not in adj or t in ins: continue
        g = adj[t]
        if t.op == 'dadd':
            for x in t.a: acc(x, g)
        elif t.op == 'dneg': acc(t.a[0], dneg(g))
        elif t.op == 'fn':
            f = t.a[0]
            if f == 'mm': acc(t.a[1], mm(g, mT(t.a[2]))); acc(t.a[2], mm(mT(t.a[1]), g))
            elif f == 'mT': acc(t.a[1], mT(g))
            elif f == 'minv': acc(t.a[1], dneg(mm(mT(t), mm(g, mT(t)))))
            elif f == 'sm': acc(t.a[1], dot(g, t.a[2])); acc(t.a[2], sm(t.a[1], g))      # a scaled vector
            elif f in ('E', 'diag'): pass
            else: raise ValueError(f)
        elif t.op in ('c', 'app', 'v'): pass
        else: raise ValueError(t.op)
    return {x: adj.get(x, D0) for x in ins}

import itertools
from fractions import Fraction
CNT = itertools.count()
K = {}
def reg(*xs):
    for x in xs:
        for p in ('', 'spec:'):
            for y in ('', '_a', 'a_'): K[p + x + y] = 'V' if isv(x) else 'M'
def cell(v, nm):
    def make(S):
        f = Fam(nm); f.S = 8; x = v(S); f.init = lambda ex, fam, path, r, ty, g: x
        return ptr(f)
    return Other(nm, make)
class Save:
    """the block of saved intermediate results: fields -> value"""
    def __init__(s, ctype, vals): s.ctype, s.vals = ctype, vals
    def fam(s, S):
        sz, off = structs.layouts()[s.ctype]
        f = Fam('save'); f.S = sz; kids = {}; S.save = {}
        vals = s.vals(S) if s.vals else {}
        for nm, (o, ty) in off.items():
            ch = Fam('save.' + nm); ch.S = 8; kids[str(o)] = ch; S.save[nm] = ch
            if nm in vals: ch.init = (lambda v: lambda ex, fam, path, r, ty, g: v)(vals[nm])
        f.init = lambda ex, fam, path, r, ty, g: ptr(kids[str(r)])
        return ptr(f)
def tree(save, on=True):
    def make(S):
        if save: S.savep = save.fam(S); S.ex.savep = S.savep
        f = Fam('save_tree'); f.init = lambda ex, fam, path, r, ty, g: ptr(Fam('tree')) if ty.k == 'ptr' else ZERO
        return ptr(f)
    return Other('save_tree', make)
def handlers(n):
    def enc(ex, g, a, I): return None
    def ret(ex, g, a, I):
        ex.store(a[2], ir.PTR, ex.savep, g); return ZERO
    def cp(ex, g, a, I): ex.store(a[0], ir.DBL, ex.load(a[1], ir.DBL, g), g)
    def DA(ex, g, a, I): ex.store(a[3], ir.DBL, mm(diag(mk('app', ('v:D',), 'd')), ex.load(a[2], ir.DBL, g)), g)
    return mat.handlers(ivar(n), extra={'save_tree_encode_s': enc, '__save_tree_retrieve_data': ret, 'copy_array1_i': cp, 'dmat_mul_D_A': DA})
K['v:D'] = 'V'

def contract(fn, params, fwd, ins, outs, n='n_quad', reset=True, seeds=None, gate=None, extra=None, free=(), pre=None):
    """fwd: {output: term over spec atoms}; ins: inputs whose adjoint is accumulated; outs: outputs consumed"""
    seeds = seeds or {}
    def val(S):
        v = {}
        for x in list(ins) + list(outs) + (pre or []):
            if x in S.a and S.a[x].op == 'ptr' and isinstance(S.P(x), Arr): v[spec(x)] = S.v(x, 0)
            elif x in S.a and isinstance(S.P(x), Dbl): v[spec(x)] = S.v(x)
            for y in (x + '_a', ): 
                if y in S.a and S.a[y].op == 'ptr': v[spec(y)] = S.v(y, 0)
        return v
    V = vjp([(fwd[o], seeds.get(o, spec(o + '_a'))) for o in outs], {spec(x) for x in ins})
    cl = []
    for x in ins:
        cl.append((x + '_a', 1, (lambda x: lambda S, i: (eq(i, ZERO), dadd(S.v(x + '_a', 0), subst(V[spec(x)], val(S)))))(x)))
    if reset:
        for o in outs: cl.append((o + '_a', 1, lambda S, i: (eq(i, ZERO), D0)))
    for f in free: cl.append(f)
    return Contract(fn, params, cl, contracts=handlers(n), kinds=K, replay=False, extra=extra)

VV = lambda *xs: [Arr(x, 'd', 1) for x in xs]
W = lambda: Other('work', mat.workstruct)
A = spec

def radiance(ctx):
    U = 'src/xrtm_radiance_a.c'; nq = Int('n_quad', 1, 100000)
    reg('R_m', 'T_p', 'S_p', 'I1_m', 'I2_p', 'I1_p', 'R12_p', 'T12_m', 'R23_m', 'S12_m', 'I3_p', 'I2_m', 'I1m')
    slab = {'I1_p': add_(mm(A('R_m'), A('I1_m')), mm(A('T_p'), A('I2_p')), A('S_p'))}
    I5 = ['R_m', 'T_p', 'S_p', 'I1_m', 'I2_p']
    yield contract('radiance_slab_a', [nq] + VV('R_m', 'T_p', 'S_p', 'R_m_a', 'T_p_a', 'S_p_a', 'I1_m', 'I2_p', 'I1_m_a', 'I2_p_a', 'I1_p', 'I1_p_a') + [W()], slab, I5, ['I1_p']), U
    toa = {'I1_p': add_(mm(A('R_m'), A('I1_m')), A('S_p'))}
    yield contract('radiance_toa_ref_a', [nq] + VV('R_m', 'S_p', 'R_m_a', 'S_p_a', 'I1_m', 'I1_m_a', 'I1_p', 'I1_p_a') + [W()], toa, ['R_m', 'S_p', 'I1_m'], ['I1_p'], reset=False), U
    # the routine consumes the adjoint of both results: upward radiance and the incident radiance it passes on
    K['I1m_a_'] = K['I1m_'] = 'V'; K['spec:I1m_a_'] = 'V'
    all_ = dict(slab); all_['I1m_'] = A('I1_m')
    def toaall():
        sl = dict(all_)
        c = contract('radiance_toa_all_a', [nq] + VV('R_m', 'T_p', 'S_p', 'R_m_a', 'T_p_a', 'S_p_a', 'I1_m', 'I2_p', 'I1_m_a', 'I2_p_a', 'I1_p', 'I1m_', 'I1_p_a', 'I1m_a_') + [W()], slab, I5, ['I1_p'])
        es = []
        for e in c.ensures:
            if e[0] == 'I1_m_a': es.append(('I1_m_a', 1, (lambda f: lambda S, i: (f(S, i)[0], dadd(f(S, i)[1], S.v('I1m_a_', 0))))(e[2])))
            else: es.append(e)
        c.ensures = es
        return c
    yield toaall(), U
    q = dsub(E, mm(A('R12_p'), A('R23_m')))
    ina = mm(inv(q), add_(mm(A('R12_p'), A('I3_p')), mm(A('T12_m'), A('I1_m')), A('S12_m')))
    ball = {'I2_m': ina, 'I2_p': add_(mm(A('R23_m'), ina), A('I3_p'))}
    ins = ['R12_p', 'T12_m', 'R23_m', 'S12_m', 'I3_p', 'I1_m']
    vals = lambda S: {A(x): S.v(x, 0) for x in ins}
    save = Save('forward_save_radiance_boa_all_data', lambda S: dict(P=dfn('lu', subst(q, vals(S))), ip=dfn('piv', subst(q, vals(S)))))
    fwd_in = cell(lambda S: subst(ina, vals(S)), 'I2_m'); fwd_out = cell(lambda S: subst(ball['I2_p'], vals(S)), 'I2_p')
    yield contract('radiance_boa_all_a', [nq] + VV('R12_p', 'T12_m', 'R23_m', 'S12_m', 'R12_p_a', 'T12_m_a', 'R23_m_a', 'S12_m_a', 'I3_p', 'I1_m', 'I3_p_a', 'I1_m_a') + [fwd_out, fwd_in] + VV('I2_p_a', 'I2_m_a') + [tree(save), W()],
                   ball, ins, ['I2_p', 'I2_m'], reset=False, free=[('I2_m_a', 1, lambda S, i: (eq(i, ZERO), S.out('I2_m_a', 0)))]), U
    # what the forward routine saves is what the adjoint uses
    def saved(ctx_, S, rv, pre, smp):
        v = vals(S)
        for nm, t in (('P', dfn('lu', subst(q, v))), ('ip', dfn('piv', subst(q, v)))):
            yield 'saved ' + nm, prove.prove_eq(S.ex.load(ptr(S.save[nm]), ir.DBL, pre), t, pre, S.facts, ctx.seed, sampler=smp)
    L = lambda *xs: [Arr(x, 'd', 'n_derivs0', 1) for x in xs]
    c = Contract('radiance_boa_all', [nq, Int('n_derivs0', 0, 0)] + VV('R12_p', 'T12_m', 'R23_m', 'S12_m') + L('R12_p_l', 'T12_m_l', 'R23_m_l', 'S12_m_l') + VV('I3_p', 'I1_m') + L('I3_p_l', 'I1_m_l') + VV('I2_p', 'I2_m') + L('I2_p_l', 'I2_m_l') + [Arr('derivs', 'uc', 'n_derivs0'), tree(Save('forward_save_radiance_boa_all_data', None)), W()],
                 [(o, 1, (lambda o: lambda S, i: (eq(i, ZERO), subst(ball[o], vals(S))))(o)) for o in ('I2_p', 'I2_m')], contracts=handlers('n_quad'), kinds=K, replay=False, extra=saved)
    c.label = 'saved terms'
    yield c, 'src/xrtm_radiance.c'

UP = ['R12', 'T12', 'S12', 'R21', 'T21', 'S21']; LO = ['R23', 'T23', 'S23', 'R32', 'T32', 'S32']
VAR = {'U': '', 'S': 'S', 'B': 'RTS'}
def code(ab): return build.consts('ADDING_%s_%s' % (ab[0], ab[1]))
def adding(ctx):
    U = 'src/xrtm_adding_a.c'; n = Int('n', 1, 100000)
    reg(*UP, *LO, 'R13', 'T13', 'S13', 'R31', 'T31', 'S31')
    R12, T12, S12, R21, T21, S21, R23, T23, S23, R32, T32, S32 = (A(x) for x in UP + LO); t = A('t')
    K31, K13 = dsub(E, mm(R23, R21)), dsub(E, mm(R21, R23))
    A31, A13 = mm(T21, inv(K31)), mm(T23, inv(K13))
    def sp(t): return dict(R13=add_(R12, mm(mm(A31, R23), T12)), T31=mm(A31, T32), S31=add_(S21, mm(A31, add_(sm(t, S32), mm(R23, S12)))),
                R31=add_(R32, mm(mm(A13, R21), T32)), T13=mm(A13, T12), S13=add_(sm(t, S23), mm(A13, add_(S12, mm(R21, sm(t, S32))))))
    def terms(S, t):
        v = {A(x): S.v(x, 0) for x in UP + LO if x in S.a}; v[A('t')] = t
        P31, P13 = mT(K31), mT(K13)
        d = dict(i31=dfn('piv', P31), P31=dfn('lu', P31), A31=A31, B13=mm(R23, T12), C31=add_(sm(A('t'), S32), mm(R23, S12)),
                 i13=dfn('piv', P13), P13=dfn('lu', P13), A13=A13, B31=mm(R21, T32), C13=add_(S12, mm(R21, sm(A('t'), S32))))
        return {k: subst(x, v) for k, x in d.items()}
    def clauses(names, outs, act, fwd, t, tadj):
        """act: the inputs that vary (their adjoints are accumulated)"""
        ins = {A(x) for x in names if x in act} | ({A('t')} if tadj else set())
        V = vjp([(fwd[o], A(o + '_a')) for o in outs], ins); cl = []
        def val(S):
            v = {A(x): S.v(x, 0) for x in names}; v.update({A(o + '_a'): S.v(o + '_a', 0) for o in outs}); v[A('t')] = t(S); return v
        for x in names:
            if x in act: cl.append((x + '_a', 1, (lambda x: lambda S, i: (eq(i, ZERO), dadd(S.v(x + '_a', 0), subst(V[A(x)], val(S)))))(x)))
        if tadj: cl.append(('atran_a', 1, lambda S, i: (eq(i, ZERO), dadd(S.v('atran_a', 0), subst(V[A('t')], val(S))))))
        return cl
    refs = UP + ['R23', 'S32']
    for ab in ('US', 'SU', 'SS', 'UB', 'BU', 'SB', 'BS', 'BB'):
        for flag in (0, 1):
            up, lo = (ab[1], ab[0]) if flag else (ab[0], ab[1])
            act = {x for x in refs if x[0] in VAR[up if x in UP else lo]}
            both = 'B' in ab; f = sp(A('t'))
            outs = ['R13', 'S31'] if both else ['S31']
            cl = clauses(refs, outs, act, f, lambda S: S.v('atran'), up == 'B')
            for o in outs: cl.append((o + '_a', 1, lambda S, i: (eq(i, ZERO), D0)))
            # the saved terms of layer_add_ref carry their own names
            sv = Save('forward_save_layer_add_ref_data', lambda S: (lambda d: dict(i13=d['i31'], C13=d['C31'], P13=d['P31'], A13=d['A31'], B31=d['B13']))(terms(S, S.v('atran'))))
            c = Contract('layer_add_ref_a', VV(*refs) + VV('R13', 'S31') + VV(*[x + '_a' for x in refs]) + VV('R13_a', 'S31_a') + [n, Dbl('atran'), Arr('atran_a', 'd', 1), Int('derivs_' + ab, code(ab), code(ab)), Int('flag_%d' % flag, flag, flag), Int('flag2'), tree(sv), W()],
                         cl, contracts=handlers('n'), kinds=K, replay=False)
            c.label = '%s flag %d' % (ab, flag)
            yield c, U
    out6 = ['R13', 'T13', 'S13', 'R31', 'T31', 'S31']
    for ab in ('UB', 'BS', 'BB'):
        act = {x for x in UP + LO if x[0] in VAR[ab[0] if x in UP else ab[1]]}
        f = sp(D1)
        cl = clauses(UP + LO, out6, act, f, lambda S: D1, False)
        for o in out6: cl.append((o + '_a', 1, lambda S, i: (eq(i, ZERO), D0)))
        cl.append(('atran_a', 1, lambda S, i: (eq(i, ZERO), S.out('atran_a', 0))))
        sv = Save('forward_save_layer_add_all_data', lambda S: terms(S, D1))
        c = Contract('layer_add_all_a', VV(*UP, *LO) + VV(*out6) + VV(*[x + '_a' for x in UP + LO + out6]) + [n, Other('atran', lambda S: D1), Arr('atran_a', 'd', 1), Int('derivs_' + ab, code(ab), code(ab)), tree(sv), W()],
                     cl, contracts=handlers('n'), kinds=K, replay=False)
        c.label = ab
        yield c, U
    # what the forward routines save is what the adjoints use
    def saved(which):
        def ex(ctx_, S, rv, pre, smp):
            d = terms(S, S.v('atran'))
            for nm, t in which(d).items():
                yield 'saved ' + nm, prove.prove_eq(S.ex.load(ptr(S.save[nm]), ir.DBL, pre), t, pre, S.facts, ctx.seed, sampler=smp)
        return ex
    L = lambda *xs: [Arr(x + '_l', 'd', 'n_derivs0', 1) for x in xs]
    nd = Int('n_derivs0', 0, 0); tl = lambda: [n, nd, Dbl('atran'), Arr('atran_l', 'd', 'n_derivs0'), Arr('derivs', 'uc', 'n_derivs0')]
    def post(outs): return [(o, 1, (lambda o: lambda S, i: (and_(eq(i, ZERO), not_(eq0(S.a['flag2' if 'flag2' in S.a else 'flag']))), subst(sp(A('t'))[o], {**{A(x): S.v(x, 0) for x in UP + LO if x in S.a}, A('t'): S.v('atran')})))(o)) for o in outs]
    c = Contract('layer_add_ref', VV(*refs) + VV('R13', 'S31') + L(*refs) + L('R13', 'S31') + tl() + [Int('flag'), Int('flag2'), tree(Save('forward_save_layer_add_ref_data', None)), W()],
                 post(['R13', 'S31']), contracts=handlers('n'), kinds=K, replay=False, extra=saved(lambda d: dict(i13=d['i31'], C13=d['C31'], P13=d['P31'], A13=d['A31'], B31=d['B13'])))
    c.label = 'saved terms'; yield c, 'src/xrtm_adding.c'
    c = Contract('layer_add_all', VV(*UP, *LO) + VV(*out6) + L(*UP, *LO) + L(*out6) + tl() + [Int('flag'), tree(Save('forward_save_layer_add_all_data', None)), W()],
                 post(out6), contracts=handlers('n'), kinds=K, replay=False, extra=saved(lambda d: d))
    c.label = 'saved terms'; yield c, 'src/xrtm_adding.c'

def operators(ctx):
    U = 'src/xrtm_utility_a.c'; nq = Int('n_quad', 1, 100000)
    reg('r_p', 't_p', 'tpr', 'tmr', 'gamma')
    for ns in (1, 2, 3, 4):
        D = diag(mk('app', ('v:D',), 'd'))
        r = mm(D, A('r_p')) if ns > 2 else A('r_p')
        f = {'tpr': add_(A('t_p'), r), 'tmr': dsub(A('t_p'), r)}
        # n_quad_v = n_quad * n_stokes is the size of the objects
        c = contract('build_txr_a', [nq, Int('n_stokes_%d' % ns, ns, ns)] + VV('r_p', 't_p', 'tpr', 'tmr', 'r_p_a', 't_p_a', 'tpr_a', 'tmr_a') + [W()], f, ['r_p', 't_p'], ['tpr', 'tmr'])
        c.contracts = mat.handlers(None, extra={k: v for k, v in handlers('n_quad').items() if k == 'dmat_mul_D_A'})
        c.label = 'n_stokes %d' % ns
        yield c, U
    yield contract('build_gamma_a', [nq] + VV('tpr', 'tmr', 'gamma', 'tpr_a', 'tmr_a', 'gamma_a') + [W()], {'gamma': mm(A('tmr'), A('tpr'))}, ['tpr', 'tmr'], ['gamma']), U

def sources(ctx):
    U = 'src/xrtm_source_a.c'; n = Int('n_quad_v', 1, 100000)
    reg('R_p', 'T_p', 'R_m', 'T_m', 'S_p', 'S_m')
    for x in ('F_p', 'F_m'):
        for k in ('', '1', '2'):
            for p in ('', 'spec:'):
                K[p + x + k] = K[p + x + '_a' + k] = 'V'
    def f(Rm, Tm): return {'S_p': dsub(dsub(A('F_p'), mm(A('T_p'), sm(A('atran'), A('F_p')))), mm(A(Rm), A('F_m'))),
                           'S_m': dsub(sm(A('atran'), dsub(A('F_m'), mm(A('R_p'), A('F_p')))), mm(A(Tm), A('F_m')))}
    at = lambda: [Dbl('atran'), Arr('atran_a', 'd', 1)]
    a = lambda *xs: VV(*[x + '_a' for x in xs])
    yield contract('build_global_source_a', [n] + at() + VV('R_p', 'T_p', 'F_p', 'F_m', 'S_p', 'S_m') + a('R_p', 'T_p', 'F_p', 'F_m', 'S_p', 'S_m') + [W()], f('R_p', 'T_p'), ['atran', 'R_p', 'T_p', 'F_p', 'F_m'], ['S_p', 'S_m'], 'n_quad_v'), U
    yield contract('build_global_source_a2', [n] + at() + VV('R_p', 'T_p', 'R_m', 'T_m', 'F_p', 'F_m', 'S_p', 'S_m') + a('R_p', 'T_p', 'R_m', 'T_m', 'F_p', 'F_m', 'S_p', 'S_m') + [W()], f('R_m', 'T_m'), ['atran', 'R_p', 'T_p', 'R_m', 'T_m', 'F_p', 'F_m'], ['S_p', 'S_m'], 'n_quad_v'), U
    names = ['F_p1', 'F_m1', 'F_p2', 'F_m2']; adj = {x: x[:3] + '_a' + x[3:] for x in names}
    V = vjp([(sm(A('btran'), A('F_p1')), A('F_p_a2')), (sm(A('btran'), A('F_m1')), A('F_m_a2'))], {A('btran'), A('F_p1'), A('F_m1')})
    val = lambda S: {A('btran'): S.v('btran'), **{A(x): S.v(x, 0) for x in ('F_p1', 'F_m1', 'F_p_a2', 'F_m_a2')}}
    cl = [(o, 1, (lambda o, x: lambda S, i: (eq(i, ZERO), dadd(S.v(o, 0), subst(V[A(x)], val(S)))))(o, x)) for o, x in (('btran_a', 'btran'), ('F_p_a1', 'F_p1'), ('F_m_a1', 'F_m1'))]
    cl += [(o, 1, lambda S, i: (eq(i, ZERO), D0)) for o in ('F_p_a2', 'F_m_a2')]
    yield Contract('scale_source_vectors_a', [n, Dbl('btran'), Arr('btran_a', 'd', 1)] + VV(*names) + VV('F_p_a1', 'F_m_a1', 'F_p_a2', 'F_m_a2') + [W()], cl, contracts=handlers('n_quad_v'), kinds=K, replay=False), U
    # the forward routine has the definition differentiated above
    fw = f('R_m', 'T_m'); L = lambda *xs: [Arr(x + '_l', 'd', 'n_derivs0', 1) for x in xs]
    fval = lambda S: {A('atran'): S.v('atran'), **{A(x): S.v(x, 0) for x in ('R_p', 'T_p', 'R_m', 'T_m', 'F_p', 'F_m')}}
    c = Contract('build_global_source_solar2', [n, Int('n_derivs0', 0, 0), Dbl('atran', 0, 1), Arr('atran_l', 'd', 'n_derivs0')] + VV('R_p', 'T_p', 'R_m', 'T_m', 'F_p', 'F_m', 'S_p', 'S_m') + L('R_p', 'T_p', 'R_m', 'T_m', 'F_p', 'F_m', 'S_p', 'S_m')
                 + [Arr('derivs_layers', 'uc', 'n_derivs0'), Arr('derivs_beam', 'uc', 'n_derivs0'), W()] + [Null(x) for x in ('F1_p', 'F1_m', 'F1_p_l', 'F1_m_l')],
                 [(o, 1, (lambda o: lambda S, i: (eq(i, ZERO), subst(fw[o], fval(S))))(o)) for o in ('S_p', 'S_m')], requires=lambda S: [not_(dlt(S.v('atran'), D0))], contracts=handlers('n_quad_v'), kinds=K, replay=False)
    c.contracts['flags_or'] = lambda ex, g, a, I: ZERO      # no derivatives: nothing is flagged
    yield c, 'src/xrtm_source.c'

# ------------------------------------------------------------------ element by element
def elements(ctx):
    U = 'src/xrtm_utility_a.c'; US = 'src/xrtm_scatter_a.c'
    cell = lambda x: Arr(x, 'd', 1)
    def at0(S, x): return S.v(x, 0)
    def deriv(y, x): return solve.diff(y, lambda a: D1 if a is x else D0)
    def scalars(fn, order, fwd, ins, outs):
        """scalar routines: x_a += sum over outputs of dy/dx y_a; y_a = 0"""
        v = {x: dvar('s:' + x) for x in ins}
        def e(x):
            def g(S, i):
                r = at0(S, x + '_a')
                for o in outs:
                    y = fwd[o](v); r = dadd(r, dmul(subst(deriv(y, v[x]), {v[z]: S.v(z) for z in ins}), at0(S, o + '_a')))
                return eq(i, ZERO), r
            return g
        return Contract(fn, order, [(x + '_a', 1, e(x)) for x in ins] + [(o + '_a', 1, lambda S, i: (eq(i, ZERO), D0)) for o in outs], replay=False, real_ranges={})
    om = lambda v: ddiv(dmul(dsub(D1, v['f']), v['omega']), dsub(D1, dmul(v['f'], v['omega'])))
    lt_ = lambda v: dmul(dsub(D1, dmul(v['f'], v['omega'])), v['ltau'])
    yield scalars('delta_m_omega_a', [Dbl('f', 0.1, 0.5), cell('f_a'), Dbl('omega', 0.1, 0.9), cell('omega_a'), cell('omega_prime_a')], {'omega_prime': om}, ['f', 'omega'], ['omega_prime']), U
    yield scalars('delta_m_ltau_a', [Dbl('f', 0.1, 0.5), cell('f_a'), Dbl('omega', 0.1, 0.9), cell('omega_a'), Dbl('ltau', 0.1, 0.9), cell('ltau_a'), cell('ltau_prime_a')], {'ltau_prime': lt_}, ['f', 'omega', 'ltau'], ['ltau_prime']), U

    # omega_tms_a is passed by value; omega_tms is the forward result
    f_, o_ = dvar('s:f'), dvar('s:omega0'); y = ddiv(o_, dsub(D1, dmul(f_, o_)))
    def tms(x, nm):
        def g(S, i):
            v = {f_: S.v('f'), o_: S.v('omega0')}
            return eq(i, ZERO), dadd(at0(S, nm), dmul(subst(deriv(y, x), v), S.v('omega_tms_a')))
        return g
    yield Contract('n_t_tms_scaling_a', [Dbl('f', 0.1, 0.5), cell('f_a'), Dbl('omega0', 0.1, 0.9), Other('omega_tms', lambda S: ddiv(S.a['omega0'], dsub(D1, dmul(S.a['f'], S.a['omega0'])))), cell('omega0_a'), Dbl('omega_tms_a')],
                   [('f_a', 1, tms(f_, 'f_a')), ('omega0_a', 1, tms(o_, 'omega0_a'))], replay=False, real_ranges={}), U
    nc = Int('n_coef', 0, 1000000, small=(0, 5))
    def inn(S, i, n='n_coef'): return inb(i, S.a[n])
    yield Contract('phase_func_a', [nc, Arr('p', 'd', 'n_coef'), Arr('coefs_a', 'd', 'n_coef'), Dbl('P_a')],
                   [('coefs_a', 1, lambda S, i: (inn(S, i), dadd(S.v('coefs_a', i), dmul(S.v('p', i), S.v('P_a')))))], real_ranges={}), US
    # delta-M of the coefficients: primed = (coef - (2 l + 1) f) / (1 - f) for the first four (and, for generalized coefficients, coef / (1 - f) for the last two)
    SC = build.consts('SCAT_COEF_GC')
    def dm(six, gc):
        rows = 6 if six else 1
        def fw(k, j, c, f): 
            a = dsub(D1, f)
            if k < 4: return ddiv(dsub(c, dmul(i2d(add(scale(2, j), ONE)), f)), a)
            return ddiv(c, a) if gc else c
        def ca(k):
            def g(S, r, j):
                x, f = dvar('s:c'), dvar('s:f'); d = deriv(fw(k, j, x, f), x)
                return and_(eq(r, ic(k)), inn(S, j)), dadd(S.v('coef_a', r, j), dmul(subst(d, {x: S.v('coef', ic(k), j), f: S.v('f')}), S.v('coef_prime_a', ic(k), j)))
            return g
        def fa(S, i):
            tot = at0(S, 'f_a'); q = bound_var(0, 1 << 30); x, f = dvar('s:c'), dvar('s:f'); b = D0
            for k in range(rows):
                d = deriv(fw(k, q, x, f), f)
                b = dadd(b, dmul(subst(d, {x: S.v('coef', ic(k), q), f: S.v('f')}), S.v('coef_prime_a', ic(k), q)))
            return eq(i, ZERO), dadd(tot, dsum(q, S.a['n_coef'], b))
        R = lambda x: Arr(x, 'd', rows, 'n_coef')
        c = Contract('delta_m_coef_a', [nc, Dbl('f', 0.1, 0.5), cell('f_a'), R('coef'), R('coef_a'), R('coef_prime_a'), Int('allsix_%d' % six, six, six), Int('coef_type_%d' % gc, SC if gc else SC + 1, SC if gc else SC + 1)],
                     [('f_a', 1, fa)] + [('coef_a', 2, ca(k)) for k in range(rows)] + [('coef_prime_a', 2, lambda S, r, j: (and_(inb(r, ic(rows)), inn(S, j)), D0))], replay=False, real_ranges={})
        c.label = 'allsix %d gc %d' % (six, gc)
        return c, U
    for sg in ((0, 0), (1, 0), (1, 1)): yield dm(*sg)
    # scalar phase functions of the azimuth order
    m, n1, n2 = Int('i_four', 0, 100000, small=(0, 3)), Int('n_mus1', 0, 100000, small=(0, 3)), Int('n_mus2', 0, 100000, small=(0, 3)); nm = Int('n_mus', 0, 100000, small=(0, 3))
    # forward: P_pp = a sum_k coef_k Y1 Y2, P_mp = a sum_k (-1)^(k-m) coef_k Y1 Y2, a = 1 for m = 0 and 2 otherwise
    two = lambda S: ite(eq0(S.a['i_four']), D1, dc(2))
    def par(S, k): return ite(eq0(trem(sub(k, S.a['i_four']), ic(2))), D1, dneg(D1))
    def kin(S, k): return and_(le(S.a['i_four'], k), lt(k, S.a['n_coef']))
    def vecs(S, k):
        q = bound_var(0, 1 << 30)
        s = dsum(q, S.a['n_mus'], dmul(dadd(S.v('P_pp_a', q), dmul(par(S, k), S.v('P_mp_a', q))), S.v('Y1', q, k)))
        return kin(S, k), dadd(S.v('coefs_a', k), dmul(dmul(two(S), s), S.v('Y2', k)))
    zero = lambda n: (lambda S, i: (inn(S, i, n), D0))
    yield Contract('build_phase_vecs_scalar_a', [m, nc, nm, Arr('Y1', 'd', 'n_mus', 'n_coef'), Arr('Y2', 'd', 'n_coef'), Int('lda'), Arr('coefs_a', 'd', 'n_coef'), Arr('P_pp_a', 'd', 'n_mus'), Arr('P_mp_a', 'd', 'n_mus')],
                   [('coefs_a', 1, vecs), ('P_pp_a', 1, zero('n_mus')), ('P_mp_a', 1, zero('n_mus'))], real_ranges={}), US
    def mats(S, k):
        q = bound_var(0, 1 << 30); r = bound_var(0, 1 << 30)
        s = dsum(r, S.a['n_mus1'], dsum(q, S.a['n_mus2'], dmul(dadd(S.v('P_pp_a', r, q), dmul(par(S, k), S.v('P_mp_a', r, q))), dmul(S.v('Y1', r, k), S.v('Y2', q, k)))))
        return kin(S, k), dadd(S.v('coefs_a', k), dmul(two(S), s))
    z2 = lambda S, i, j: (and_(inn(S, i, 'n_mus1'), inn(S, j, 'n_mus2')), D0)
    yield Contract('build_phase_mats_scalar_a', [m, nc, n1, n2, Arr('Y1', 'd', 'n_mus1', 'n_coef'), Arr('Y2', 'd', 'n_mus2', 'n_coef'), Int('lda'), Arr('coefs_a', 'd', 'n_coef'), Arr('P_pp_a', 'd', 'n_mus1', 'n_mus2'), Arr('P_mp_a', 'd', 'n_mus1', 'n_mus2')],
                   [('coefs_a', 1, mats), ('P_pp_a', 2, z2), ('P_mp_a', 2, z2)], real_ranges={}), US
    ns = Int('n_stokes', 1, 4, small=(1, 4))
    def gc(S, r, k):
        one = eq(r, ZERO); two_ = and_(eq(r, ic(4)), and_(lt(ONE, S.a['n_stokes']), le(ic(2), k)))
        return and_(inn(S, k), or_(one, two_)), dadd(S.v('coefs_a', r, k), ite(one, dmul(S.v('F_a', ZERO), S.v('gsf', ZERO, k)), dmul(S.v('F_a', ONE), S.v('gsf', ONE, k))))
    yield Contract('build_scat_vector_gc_a', [nc, ns, Arr('gsf', 'd', 2, 'n_coef'), Arr('coefs_a', 'd', 6, 'n_coef'), Arr('F_a', 'd', 'n_stokes')], [('coefs_a', 2, gc)], real_ranges={}), US
    # local reflection and transmission: r = -(1 + [m = 0]) / 4 omega M^-1 P_m W, t likewise with P_p and the opposite sign
    nq = Int('n_quad', 0, 100000, small=(0, 3))
    def fac(S): return dmul(dc(Fraction(1, 4)), ite(eq0(S.a['i_four']), dc(2), D1))
    def coef(S, i, j): return ddiv(dmul(fac(S), S.v('qw_v', j)), S.v('qx_v', i))
    def pa(P, o, sg): return lambda S, i, j: (and_(inn(S, i, 'n_quad'), inn(S, j, 'n_quad')), dadd(S.v(P + '_a', i, j), dmul(dmul(dc(sg), S.v('omega')), dmul(coef(S, i, j), S.v(o + '_a', i, j)))))
    def oa(S, i):
        r = S.v('omega_a', 0)
        for P, o, sg in (('P_p', 't', 1), ('P_m', 'r', -1)):
            x, y = bound_var(0, 1 << 30), bound_var(0, 1 << 30)
            r = dadd(r, dsum(x, S.a['n_quad'], dsum(y, S.a['n_quad'], dmul(dc(sg), dmul(coef(S, x, y), dmul(S.v(P, x, y), S.v(o + '_a', x, y)))))))
        return eq(i, ZERO), r
    Q = lambda x: Arr(x, 'd', 'n_quad', 'n_quad', contig=True); zq = lambda S, i, j: (and_(inn(S, i, 'n_quad'), inn(S, j, 'n_quad')), D0)
    def wk(ex, g, a, I):
        f = Fam('w%d' % next(CNT)); f.scratch = True; return ptr(f)
    yield Contract('build_local_r_and_t_a', [m, nq, Arr('qx_v', 'd', 'n_quad'), Arr('qw_v', 'd', 'n_quad'), Dbl('omega'), cell('omega_a'), Q('P_p'), Q('P_m'), Q('r'), Q('t'), Q('P_p_a'), Q('P_m_a'), Q('r_a'), Q('t_a'), W()],
                   [('omega_a', 1, oa), ('P_p_a', 2, pa('P_p', 't', 1)), ('P_m_a', 2, pa('P_m', 'r', -1)), ('r_a', 2, zq), ('t_a', 2, zq)], contracts={'work_get1': wk}, replay=False, real_ranges={'qx_v': (0.1, 1)}), (U, 'src/xrtm_matrix.c', 'misc/gmath_matrix.c', 'misc/gmath_vector.c')

def vectors(ctx):
    """adjoints of the pieces of the polarized phase vectors and matrices"""
    G = 'src/xrtm_scatter_a.c'; Q = lambda x: Int(x, 0, 100000, small=(0, 3))
    for ns in (1, 2, 3, 4):
        sg = lambda r: -1 if r >= 2 else 1; N = lambda f, ns=ns: (lambda S: scale(ns, S.a[f]))
        for pos in (1, -1):
            ens = []
            for o, src in (('P_pp_a', 'P_mm_a'), ('P_mp_a', 'P_pm_a')):
                for r in range(ns):
                    for c in range(ns):
                        def f(S, i, j, ns=ns, r=r, c=c, o=o, src=src):
                            q = lambda x, r: eq(x, add(scale(ns, tdiv(x, ic(ns))), ic(r)))
                            return andl([inb(i, scale(ns, S.a['n_quad1'])), inb(j, scale(ns, S.a['n_quad2'])), q(i, r), q(j, c)]), dadd(S.v(o, i, j), dmul(dmul(S.a['f'], dc(sg(r) * sg(c))), S.v(src, i, j)))
                        ens.append((o, 2, f))
            k = Contract('phase_matrix_symmetry_a3', [Q('n_quad1'), Other('n_stokes1', lambda S, ns=ns: ic(ns)), Q('n_quad2'), Other('n_stokes2', lambda S, ns=ns: ic(ns))] + [Arr(x, 'd', N('n_quad1'), N('n_quad2'), contig=True) for x in ('P_pp_a', 'P_mp_a', 'P_mm_a', 'P_pm_a')]
                         + [Other('f', lambda S, pos=pos: dc(pos))], ens, replay=False, real_ranges={})
            k.label = 'n_stokes %d f %d' % (ns, pos); yield k, (G, 'src/xrtm_matrix.c')
    for ns in (1, 3, 4):
        rows = {0: [(1, 0, 0)]}
        if ns >= 3: rows.update({1: [(1, 1, 1)], 4: [(-1, 0, 1), (-1, 1, 0)], 2: [(1, 2, 2)]})
        if ns >= 4: rows.update({3: [(1, 3, 3)], 5: [(1, 2, 3), (-1, 3, 2)]})
        def row(k, cells):
            def f(S, r, i):
                v = S.v('gc_a', ic(k), S.a['i'])
                for s_, x, y in cells: v = dadd(v, dmul(dmul(dc(s_), S.a['c']), S.v('B_a', ic(x), ic(y))))
                return and_(eq(r, ic(k)), eq(i, S.a['i'])), v
            return f
        k = Contract('gc_to_B_a', [Int('i', 0, 100000), Other('n_stokes', lambda S, ns=ns: ic(ns)), Arr('gc_a', 'd', 6, 'n_coef'), Arr('B_a', 'd', ns, ns), Dbl('c')], [('gc_a', 2, row(k, c)) for k, c in rows.items()], replay=False, real_ranges={})
        k.label = 'n_stokes %d' % ns; yield k, G
    for ns in (1, 2, 3, 4):
        def rot(S, i, ns=ns):
            # the rotation of the scattering vector (1, 0): C and -S are what the forward routine makes of a unit second element
            x, y, M_ = S.a['mu'], S.a['mu_prime'], S.a['MU']; root = lambda t: dfn('sqrt', dsub(D1, dsq(t))); ss, sp = root(M_), root(y); az = dmul(S.a['d_phi'], dc(Fraction(0.017453292519943295)))
            c = ite(deq(ss, D0), D0, ite(deq(sp, D0), dfn('cos', az), ddiv(dsub(x, dmul(y, M_)), dmul(sp, ss)))); c2 = dsq(c); q = dsub(D1, c2)
            s_ = ite(dlt(q, D0), D0, dmul(dmul(dc(2), dfn('sqrt', q)), c)); s_ = ite(dlt(dfn('sin', az), D0), dneg(s_), s_)
            v = dmul(S.v('P1_a', ONE), dsub(dmul(dc(2), c2), D1))
            if ns > 2: v = dsub(v, dmul(S.v('P1_a', ic(2)), s_))
            return eq(i, ONE), v
        # in place, as it is used; the third and fourth element of the argument do not enter the forward routine, their adjoints are not specified
        dead = [('P1_a', 1, lambda S, i: (lt(ONE, i), S.out('P1_a', i)))]
        k = Contract('scat_vector_rotate_hovenier_a', [Other('n_stokes', lambda S, ns=ns: ic(ns)), Dbl('mu'), Dbl('mu_prime'), Dbl('MU'), Dbl('d_phi'), Arr('P1_a', 'd', ns), Alias('P2_a', 'P1_a')], ([('P1_a', 1, rot)] if ns > 1 else []) + dead, replay=False, real_ranges={})
        k.label = 'n_stokes %d' % ns; yield k, 'src/xrtm_scatter.c'

def run(ctx):
    jobs = list(radiance(ctx)) + list(adding(ctx)) + list(operators(ctx)) + list(sources(ctx)) + list(elements(ctx)) + list(vectors(ctx))
    ctx.par(jobs, lambda c, j: c.check(j[0], *([j[1]] if isinstance(j[1], str) else j[1])))
    mat.assumptions(ctx)
    ctx.run_native('adjoints against central differences of the forward routines', 'replay/C18.c: random values, adjoints and configurations; includes the vector phase vectors and matrices, the composite delta-M routine and the particular solution')
