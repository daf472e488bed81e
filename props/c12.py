"""C12: adding two layers: interaction principle and its exact derivatives, per activity combination."""
from vf.contract import *
from vf.terms import *
from vf import solve, mat, build, structs, prove, ir
from vf.sym import Fam
from vf.mat import mm, mT, inv, E, sm, add_
FLOOR = 1000
NAME = 'adding'
U = 'src/xrtm_adding.c'
UP = ['R12', 'T12', 'S12', 'R21', 'T21', 'S21']; LO = ['R23', 'T23', 'S23', 'R32', 'T32', 'S32']
ALL = UP + LO
OUT = {'R13': 'R12', 'T13': 'T12', 'S13': 'S12', 'R31': 'R21', 'T31': 'T21', 'S31': 'S21'}
ATOM = {x: mk('app', ('spec:' + x,), 'd') for x in ALL + ['t']}
KIND = {x + y: 'V' if x[0] == 'S' else 'M' for x in ALL + list(OUT) for y in ('', '_l')}
KIND.update({'spec:' + x: KIND[x] for x in ALL})
def spec():
    """interaction principle for layer 12 over layer 23; the beam reaching the lower layer is attenuated by t"""
    R12, T12, S12, R21, T21, S21, R23, T23, S23, R32, T32, S32, t = (ATOM[x] for x in ALL + ['t'])
    A31 = mm(T21, inv(dsub(E, mm(R23, R21)))); A13 = mm(T23, inv(dsub(E, mm(R21, R23))))
    return dict(R13=add_(R12, mm(mm(A31, R23), T12)), T31=mm(A31, T32), S31=add_(S21, mm(A31, add_(sm(t, S32), mm(R23, S12)))),
                R31=add_(R32, mm(mm(A13, R21), T32)), T13=mm(A13, T12), S13=add_(sm(t, S23), mm(A13, add_(S12, mm(R21, sm(t, S32))))))
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
def nz(S, n): return not_(eq0(S.a[n]))
CODES = {(a, b): ('ULSB'.index(a) & 0) for a in 'USLB' for b in 'USLB'}
OK = ['US', 'SU', 'SS', 'UL', 'LU', 'LL', 'UB', 'BU', 'SB', 'BS', 'BB']
def code(ab): return build.consts('ADDING_%s_%s' % (ab[0], ab[1]))
VAR = {'U': '', 'S': 'S', 'L': 'RT', 'B': 'RTS'}
def run(ctx):
    H = lambda: mat.handlers(ivar('n'))
    W = Other('work', mat.workstruct); ST = Other('save_tree', mat.nullstruct)
    def val(S): return {ATOM[x]: S.v(x, 0) for x in ALL if x in S.a} | {ATOM['t']: S.v('atran')}
    def excluded(*cs):
        # combinations the function does not implement do not occur
        def r(S):
            k = bound_var(); v = S.v('derivs', k)
            return [not_(exists(k, S.a['n_derivs'], eq(v, ic(code(c))))) for c in cs]
        return r
    def clauses(outs, combos, names, gate=None, swap=None, tcodes=False, alias=False):
        nm = (lambda x: alias[x]) if alias else (lambda x: x)
        """values (when gate holds) and, per combination, the derivatives of every result that combination changes"""
        sp = spec(); cl = []
        def value(x): return lambda S, i: (and_(eq(i, ZERO), nz(S, gate) if gate else TRUE), subst(sp[x], val(S)))
        def deriv(x, ab):
            def f(S, k, i):
                def tan(up, lo):
                    t = {ATOM['t']: S.v('atran_l', k) if tcodes and up == 'B' else D0}
                    for y in ALL:
                        w = up if y in UP else lo
                        t[ATOM[y]] = S.v(y + '_l', k, 0) if y in names and y[0] in VAR[w] else D0
                    return t
                def d(up, lo):
                    t = tan(up, lo); return subst(solve.diff(sp[x], lambda a: t.get(a, D0)), val(S))
                v = d(ab[0], ab[1])
                if swap and ab[0] != ab[1]: v = ite(nz(S, swap), d(ab[1], ab[0]), v)
                c = and_(and_(inb(k, S.a['n_derivs']), eq(i, ZERO)), eq(S.v('derivs', k), cast('zext', ic(code(ab)), 8, 32) if 0 else ic(code(ab))))
                return c, v
            return f
        for x in outs: cl.append((nm(x), 1, value(x)))
        for ab in combos:
            for x in outs:
                if 'L' in ab and x[0] == 'S': continue      # no sources when only the operators vary
                if x[0] != 'S' and not set(ab) & set('LB'): continue
                cl.append((nm(x) + '_l', 2, deriv(x, ab)))
        return cl
    n, nd = Int('n', 1, 100000), Int('n_derivs', 0, 1000000)
    M = lambda x: Arr(x, 'd', 1)
    def pars(ins, outs, alias, nd_='n_derivs'):
        p = []
        for sfx in ('', '_l'):
            for x in ins: p.append(Arr(x, 'd', 1) if not sfx else Arr(x + '_l', 'd', nd_, 1))
            for x in outs:
                p.append(Alias(x + sfx, alias[x] + sfx) if alias else Arr(x, 'd', 1) if not sfx else Arr(x + '_l', 'd', nd_, 1))
        return p
    code_ok = lambda S: []
    tail = lambda: [n, nd, Dbl('atran'), Arr('atran_l', 'd', 'n_derivs'), Arr('derivs', 'uc', 'n_derivs')]
    jobs = []
    REFOUT = {'R13': 'R23', 'S31': 'S32'}
    def aux(valid):
        """the saved terms of a pair of layers; valid: they already hold the terms of the current operators"""
        def make(S):
            off = structs.layouts()['layer_add_aux_data'][1]
            f = Fam('aux'); f.S = structs.layouts()['layer_add_aux_data'][0]; S.aux = {}; kids = {}
            x = {k: S.v(k, 0) if k in S.a else D0 for k in ('R12', 'T12', 'R21', 'T21', 'R23', 'T23', 'R32', 'T32')}
            P31, P13 = mT(dsub(E, mm(x['R23'], x['R21']))), mT(dsub(E, mm(x['R21'], x['R23'])))
            c = dict(i31=dfn('piv', P31), P31=dfn('lu', P31), A31=mm(x['T21'], inv(mT(P31))), B13=mm(x['R23'], x['T12']),
                     i13=dfn('piv', P13), P13=dfn('lu', P13), A13=mm(x['T23'], inv(mT(P13))), B31=mm(x['R21'], x['T32']))
            S.auxval = c
            for fn, (o, ty) in off.items():
                ch = Fam('aux.' + fn); ch.S = 8; S.aux[fn] = ch
                if valid and fn in c: ch.init = (lambda v: lambda ex, fam, path, r, ty, g: v)(c[fn])
                kids[str(o)] = ch
            f.init = lambda ex, fam, path, r, ty, g: ptr(kids[str(r)])
            return ptr(f)
        return Other('d', make)
    def auxpost(need):
        """the terms saved for later use are those of the operators passed in"""
        def ext(ctx, S, rv, pre, smp):
            for k in need:
                got = S.ex.load(ptr(S.aux[k]), ir.DBL, pre)
                yield 'saved ' + k, prove.prove_eq(got, S.auxval[k], pre, S.facts, ctx.seed, sampler=smp)
        return ext
    def auxkeep(ctx, S, rv, pre, smp):
        if any(f.log for f in S.aux.values()): yield 'saved terms only read', prove.Result(False, 'frame', 'the saved terms are rewritten although they need not be recomputed')
        else: yield 'saved terms only read', prove.Result(True, 'frame', '')
    def unit(S): return D1
    def zeros(S):
        f = Fam('atran_l'); f.S = 8; f.init = lambda ex, fam, path, r, ty, g: D0
        return ptr(f)
    # ---- reflection and upward source only
    refin, refout = UP + ['R23', 'S32'], ['R13', 'S31']
    for al in (None, REFOUT):
        T_ = tail()
        cl = clauses(refout, OK, refin, 'flag2', 'flag', tcodes=True, alias=al)
        jobs.append(Contract('layer_add_ref', pars(refin, refout, al) + T_ + [Int('flag'), Int('flag2'), ST, W], cl, requires=excluded('LB', 'BL'), contracts=H(), kinds=KIND, replay=False))
        for d, f3, ex_ in ((Null('d'), Int('flag3'), None), (aux(False), Int('flag3_on', 1, 1), auxpost(['i31', 'P31', 'A31', 'B13'])), (aux(True), Int('flag3_off', 0, 0), auxkeep)):
            jobs.append(Contract('layer_add_ref2', pars(refin, refout, al) + T_ + [Int('flag'), Int('flag2'), f3, W, d], cl, requires=excluded('LB', 'BL'), contracts=H(), kinds=KIND, replay=False, extra=ex_))
    # ---- all operators and sources.  Values for any attenuation; derivatives as the model calls these functions: sources already attenuated (factor 1, derivative 0)
    out6 = list(OUT); so = ['S13', 'S31']
    DV = [n, nd, Other('atran', unit), Other('atran_l', zeros), Arr('derivs', 'uc', 'n_derivs')]
    VA = [n, Int('n_derivs0', 0, 0), Dbl('atran'), Arr('atran_l', 'd', 'n_derivs0'), Arr('derivs', 'uc', 'n_derivs0')]
    SAME = {'R13': 'R23', 'T13': 'T23', 'S13': 'S23', 'R31': 'R32', 'T31': 'T32', 'S31': 'S32'}
    for al in (None, OUT):
        for dv in (0, 1):
            tl = DV if dv else VA
            cl = clauses(out6, OK if dv else [], ALL, 'flag', alias=al); cs = clauses(so, ['US', 'SU', 'SS'] if dv else [], ALL, None, alias=al)
            csf = clauses(so, ['US', 'SU', 'SS'] if dv else [], ALL, 'flag', alias=al)
            ex_ = excluded('LB', 'BL') if dv else None
            P = lambda: pars(ALL, out6, al, 'n_derivs' if dv else 'n_derivs0')
            K = dict(contracts=H(), kinds=KIND, replay=False)
            jobs.append(Contract('layer_add_all', P() + tl + [Int('flag'), ST, W], cl, requires=ex_, **K))
            jobs.append(Contract('source_add_all', P() + tl + [Int('flag'), W], csf, **K))
            for d, f3, post in ((Null('d'), Int('flag2'), None), (aux(False), Int('flag2_on', 1, 1), True), (aux(True), Int('flag2_off', 0, 0), False)):
                if al and post is False and dv: pass
                jobs.append(Contract('layer_add_all2', P() + tl + [Int('flag'), f3, W, d], cl, requires=ex_, extra=None if post is None else auxpost(['i31', 'P31', 'A31', 'B13', 'i13', 'P13', 'A13', 'B31']) if post else auxkeep, **K))
                jobs.append(Contract('source_add_all2', P() + tl + [Int('flag'), f3, W, d], csf, extra=None if post is None else auxpost(['i31', 'P31', 'A31', 'i13', 'P13', 'A13']) if post else auxkeep, **K))
    # ---- empty layers and copies
    def tab(x, l): return Arr(x + l, 'd', 'n_derivs', 1)
    def gate(S, dn, k): return and_(inb(k, S.a['n_derivs']), not_(eq0(S.v(dn, k))))
    at0 = lambda i: eq(i, ZERO)
    K = dict(contracts=H(), kinds={'R_m': 'M'}, replay=False)
    def cp(vals, ls, ops, fn, ders, mk_):
        """fn copies (or zeroes) the objects of ops; mk_(S, x, *idx): the new value"""
        ps = [Arr(x + sfx, 'd', 1) for sfx in vals for x in ops]
        if ls: ps += [Arr(x + '_l' + sfx, 'd', 'n_derivs', 1) for sfx in vals for x in ops]
        ps += [n] + ([nd] + [Arr(x, 'uc', 'n_derivs') for x in ders] if ls else [])
        o = vals[0]
        cl = [(x + o, 1, (lambda x: lambda S, i: (at0(i), mk_(S, x + '%s', 0)))(x)) for x in ops]
        def dcl(x):
            def f(S, k, i):
                if len(ders) == 2: c = gate(S, ders[x[0] == 'S'], k)
                elif len(vals) == 1: c = gate(S, ders[0], k)
                else:
                    v = S.v(ders[0], k); w = {'S': ('US', 'UB'), 'R': ('UL', 'UB'), 'T': ('UL', 'UB')}[x[0]]
                    c = and_(inb(k, S.a['n_derivs']), or_(eq(v, ic(code(w[0]))), eq(v, ic(code(w[1])))))
                return and_(c, at0(i)), mk_(S, x + '_l%s', k, 0)
            return f
        if ls: cl += [(x + '_l' + o, 2, dcl(x)) for x in ops]
        jobs.append(Contract(fn, ps, cl, **K))
    zero = lambda S, x, *i: D0
    def old(S, x, *i): return S.v(x % '1', *i)
    o2, o6 = ['R_m', 'S_p'], ['R_m', 'T_m', 'S_m', 'R_p', 'T_p', 'S_p']
    cp([''], 0, o2, 'layer_zero_ref', [], zero); cp([''], 1, o2, 'layer_zero_ref_l', ['derivs_layers', 'derivs_sources'], zero)
    cp(['2', '1'], 0, o2, 'layer_copy_ref', [], old); cp(['2', '1'], 1, o2, 'layer_copy_ref_l', ['derivs_layers', 'derivs_sources'], old)
    cp([''], 0, o6, 'layer_zero_all', [], zero); cp([''], 1, o6, 'layer_zero_all_l', ['derivs'], zero)
    cp(['2', '1'], 0, o6, 'layer_copy_all', [], old); cp(['2', '1'], 1, o6, 'layer_copy_all_l', ['derivs'], old)
    mods = ctx.load(U)
    ctx.par(jobs, lambda k, c: k.check(c, mods=mods))
    mat.assumptions(ctx)
    ctx.assume('no saved intermediate results are requested (save_tree.t is null)', 'layer_add_all* and source_add_all*: derivatives as the model calls them, with sources attenuated beforehand (factor 1); values for any factor',
               'operators-only combinations occur only without sources; the combinations ADDING_S_L, ADDING_L_S, ADDING_L_B, ADDING_B_L do not occur', 'the derivative of the attenuation is zero where only the sources of a layer vary')
