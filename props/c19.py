"""C19: the finite difference interface.
Setters and getters of perturbations as interface contracts; perturb_values() moves every input by f times the requested perturbation,
each exactly once, through the native setters; xrtm_fd_solution() undoes what it perturbs and divides the right difference."""
import os
from props.api import L, L1, E, TH, KER, inb, npar, np_, one, NPARAMS
from vf import iface, guard, prove, ir, structs, solve
from vf.iface import *
from vf.handle import Handle, K
from vf.structs import Struct, base_type
from vf.sym import Fam, Unsupported
from vf.terms import *
FLOOR = 150
NAME = 'finite differences'
SRC = ('src/xrtm_fd_interface.c', 'src/xrtm_interface.c', 'src/xrtm_support.c', 'src/xrtm_utility.c', 'src/xrtm_brdf.c')
FDIMS = {'d': ('', ['1']), 'd.n_coef_layer': ('COEFS', ['L']), 'd.kernels': ('KER', ['K']), 'delta': ('', ['D']), 'F_iso_top_p': ('', ['D']), 'F_iso_bot_p': ('', ['D']), 'levels_b_p': ('SOURCE_THERMAL', ['L+1', 'D']), 'surface_b_p': ('SOURCE_THERMAL', ['D']), 'coef_p': ('COEFS', ['L', 'D', 'E', 'C']),
         'ltau_p': ('', ['L', 'D']), 'omega_p': ('', ['L', 'D']), 'kernel_ampfac_p': ('KER', ['K', 'D']), 'kernel_params_p': ('KER', ['K', 'D', '4'])}

class Inner(Struct):
    """the structure a field of another structure refers to"""
    def __init__(s, ex, outer, field, ctype):
        super().__init__(outer.name + '.' + field, ctype, outer.fam.child(outer.fl[field][0])); s.ex = ex; s.outer = outer; s.fieldname = field
    def base_at(s, o): return s.ex.padd(s.outer.get(s.ex, s.fieldname, time=0), ic(o))

class FdHandle(Handle):
    """the finite difference handle and the model handle it refers to"""
    frozen = ('d', 'd.n_coef_layer', 'd.kernels')
    def __init__(s, ex, name='d'):
        s.ex = ex; s.k = K(); s.t0 = None
        s.d = Struct(name, 'xrtm_fd_data'); s.x = Inner(ex, s.d, 'd', 'xrtm_data')
    def setup_umus(s): pass
    def field_of(s, fam):
        r = super().field_of(fam)
        if r is None or r[0] != 'd' or r[1] == 1: return r
        x = fam
        while x.parent is not s.x.fam: x = x.parent
        for o, c in s.x.fam.children.items():
            if c is x: return ('d', 1) if fam is s.x.fam else ('d.' + s.x.fam.ctype(o), r[1] - 1)
        return r
    def f(s, field, *ix): return (s.d if field in s.d.fl and field != 'd' else s.x).get(s.ex, field, *ix, time=s.t0)
    def wf(s):
        f = s.f; out = [le(ic(lo), f(n)) for n, lo in (('n_layers', 1), ('n_quad', 1), ('n_derivs', 0), ('n_umus', 0), ('n_ulevels', 1), ('n_kernels', 0), ('n_coef', 0), ('n_stokes', 1))]
        out.append(or_(eq(f('n_elem'), ONE), eq(f('n_elem'), ic(6))))
        i = bound_var(); out.append(('all', [i], and_(le(ZERO, f('n_coef_layer', i)), le(f('n_coef_layer', i), f('n_coef')))))
        i = bound_var(); out.append(('all', [i], and_(le(ZERO, f('kernels', i)), lt(f('kernels', i), ic(11)))))
        return out

A = []
def api(*a, **k): A.append(Api(*a, handle=FdHandle, dimtab=FDIMS, **k))
Dn = lambda S: S.f('n_derivs')
il = lambda S: S.a['i_layer']; idv = lambda S: S.a['i_deriv']; ik = lambda S: S.a['i_kernel']
okl = lambda S: inb(il(S), L(S)); okd = lambda S: inb(idv(S), Dn(S)); okk = lambda S: inb(ik(S), S.f('n_kernels')); okp = lambda S: inb(S.a['i_param'], np_(S)); some = lambda S: lt(ZERO, Dn(S))
yes = lambda S: TRUE
def build_apis():
    if A: return
    api('xrtm_fd_get_n_derivs', [], value=Dn)
    api('xrtm_fd_set_delta', [Arr('x', 'd', Dn)], None, [('delta', 1, lambda S, j: (inb(j, Dn(S)), S.v('x', j)))])
    api('xrtm_fd_get_delta', [Arr('x', 'd', Dn)], outs=[('x', 1, lambda S, j: (inb(j, Dn(S)), S.f('delta', j)))])
    for nm, need in (('F_iso_top', yes), ('F_iso_bot', yes), ('surface_b', TH)):
        f = nm + '_p'
        api('xrtm_fd_set_%s_1' % f, [Int('i_deriv'), Dbl('x')], lambda S, need=need: and_(need(S), okd(S)), [(f, 1, lambda S, j: (eq(j, idv(S)), S.a['x']))])
        api('xrtm_fd_set_%s_n' % f, [Arr('x', 'd', Dn)], need, [(f, 1, lambda S, j: (inb(j, Dn(S)), S.v('x', j)))])
        api('xrtm_fd_get_' + f, [Int('i_deriv')], lambda S, need=need: and_(need(S), okd(S)), value=lambda S, f=f: S.f(f, idv(S)), err='d')
    api('xrtm_fd_set_levels_b_p_1', [Int('i_deriv'), Arr('x', 'd', L1)], lambda S: and_(TH(S), okd(S)), [('levels_b_p', 2, lambda S, i, j: (and_(inb(i, L1(S)), eq(j, idv(S))), S.v('x', i)))])
    api('xrtm_fd_set_levels_b_p_n', [Arr('x', 'd', L1, Dn)], TH, [('levels_b_p', 2, lambda S, i, j: (and_(inb(i, L1(S)), inb(j, Dn(S))), S.v('x', i, j)))])
    api('xrtm_fd_get_levels_b_p', [Int('i_deriv'), Arr('x', 'd', L1)], lambda S: and_(TH(S), okd(S)), value=lambda S: D0, err='d', outs=[('x', 1, lambda S, i: (inb(i, L1(S)), S.f('levels_b_p', i, idv(S))))])
    COEFS = lambda S: S.sol('USE_COEF')
    for nm, dims, need in (('omega', [], yes), ('ltau', [], yes), ('coef', [E, lambda S: S.f('n_coef')], COEFS)):
        f = nm + '_p'; nb = len(dims)
        cell = (lambda S, l, ix: TRUE) if not nb else (lambda S, l, ix: and_(inb(ix[0], E(S)), inb(ix[1], S.f('n_coef_layer', l))))
        x11 = [Dbl('x')] if not nb else [Arr('x', 'd', *dims)]
        v11 = (lambda S, ix: S.a['x']) if not nb else (lambda S, ix: S.v('x', *ix))
        api('xrtm_fd_set_%s_11' % f, [Int('i_layer'), Int('i_deriv')] + x11, lambda S, need=need: andl([need(S), okl(S), okd(S)]),
            [(f, 2 + nb, lambda S, l, d, *ix, cell=cell, v11=v11: (andl([eq(l, il(S)), eq(d, idv(S)), cell(S, l, ix)]), v11(S, ix)))])
        api('xrtm_fd_set_%s_n1' % f, [Int('i_deriv'), Arr('x', 'd', L, *dims)], lambda S, need=need: andl([need(S), okd(S)]),
            [(f, 2 + nb, lambda S, l, d, *ix, cell=cell: (andl([inb(l, L(S)), eq(d, idv(S)), cell(S, l, ix)]), S.v('x', l, *ix)))])
        api('xrtm_fd_set_%s_1n' % f, [Int('i_layer'), Arr('x', 'd', Dn, *dims)], lambda S, need=need: andl([need(S), okl(S), some(S)]),
            [(f, 2 + nb, lambda S, l, d, *ix, cell=cell: (andl([eq(l, il(S)), inb(d, Dn(S)), cell(S, l, ix)]), S.v('x', d, *ix)))])
        api('xrtm_fd_set_%s_nn' % f, [Arr('x', 'd', L, Dn, *dims)], lambda S, need=need: andl([need(S), some(S)]),
            [(f, 2 + nb, lambda S, l, d, *ix, cell=cell: (andl([inb(l, L(S)), inb(d, Dn(S)), cell(S, l, ix)]), S.v('x', l, d, *ix)))])
        if nb: api('xrtm_fd_get_coef_p', [Int('i_layer'), Int('i_deriv'), Int('i_elem'), Int('i_coef')], lambda S: andl([COEFS(S), okl(S), okd(S), inb(S.a['i_elem'], E(S)), inb(S.a['i_coef'], S.f('n_coef_layer', il(S)))]), value=lambda S: S.f('coef_p', il(S), idv(S), S.a['i_elem'], S.a['i_coef']), err='d')
        else: api('xrtm_fd_get_' + f, [Int('i_layer'), Int('i_deriv')], lambda S: and_(okl(S), okd(S)), value=lambda S, f=f: S.f(f, il(S), idv(S)), err='d')
    api('xrtm_fd_set_kernel_ampfac_p_1', [Int('i_kernel'), Int('i_deriv'), Dbl('x')], lambda S: and_(okk(S), okd(S)), [('kernel_ampfac_p', 2, lambda S, k, j: (and_(eq(k, ik(S)), eq(j, idv(S))), S.a['x']))])
    api('xrtm_fd_set_kernel_ampfac_p_n', [Int('i_kernel'), Arr('x', 'd', Dn)], okk, [('kernel_ampfac_p', 2, lambda S, k, j: (and_(eq(k, ik(S)), inb(j, Dn(S))), S.v('x', j)))])
    api('xrtm_fd_get_kernel_ampfac_p', [Int('i_kernel'), Int('i_deriv')], lambda S: and_(okk(S), okd(S)), value=lambda S: S.f('kernel_ampfac_p', ik(S), idv(S)), err='d')
    for sfx, ps in (('11', [Int('i_layer'), Int('i_deriv'), Dbl('x')]), ('n1', [Int('i_deriv'), Arr('x', 'd', L)]), ('1n', [Int('i_layer'), Arr('x', 'd', Dn)]), ('nn', [Arr('x', 'd', L, Dn)])): api('xrtm_fd_set_g_p_' + sfx, ps, lambda S: FALSE)
    api('xrtm_fd_get_g_p', [Int('i_layer'), Int('i_deriv')], lambda S: FALSE, value=lambda S: D0, err='d')
    P = 'kernel_params_p'; at = lambda S, k: eq(k, ik(S)); ip = lambda S: S.a['i_param']
    api('xrtm_fd_set_kernel_params_p_11', [Int('i_kernel'), Int('i_deriv'), Int('i_param'), Dbl('x')], lambda S: andl([okk(S), okd(S), okp(S)]), [(P, 3, lambda S, k, j, q: (andl([at(S, k), eq(j, idv(S)), eq(q, ip(S))]), S.a['x']))])
    api('xrtm_fd_set_kernel_params_p_1n', [Int('i_kernel'), Int('i_deriv'), Arr('x', 'd', np_)], lambda S: and_(okk(S), okd(S)), [(P, 3, lambda S, k, j, q: (andl([at(S, k), eq(j, idv(S)), inb(q, np_(S))]), S.v('x', q)))])
    api('xrtm_fd_set_kernel_params_p_n1', [Int('i_kernel'), Int('i_param'), Arr('x', 'd', Dn)], lambda S: and_(okk(S), okp(S)), [(P, 3, lambda S, k, j, q: (andl([at(S, k), inb(j, Dn(S)), eq(q, ip(S))]), S.v('x', j)))])
    api('xrtm_fd_set_kernel_params_p_nn', [Int('i_kernel'), Arr('x', 'd', Dn, np_)], okk, [(P, 3, lambda S, k, j, q: (andl([at(S, k), inb(j, Dn(S)), inb(q, np_(S))]), S.v('x', j, q)))])
    api('xrtm_fd_get_kernel_params_p', [Int('i_kernel'), Int('i_deriv'), Int('i_param')], lambda S: andl([okk(S), okd(S), okp(S)]), value=lambda S: S.f(P, ik(S), idv(S), ip(S)), err='d')

def flat(events, names, binders=(), g0=TRUE, out=None):
    """every call event with the loops around it: (loops [(variable, trip count)], condition, index)"""
    out = [] if out is None else out
    for ev in events:
        if ev[0] == 'call' and ev[2] in names: out.append((list(binders), and_(g0, ev[1]), ev[4], ev[5]))
        elif ev[0] == 'loop': flat([ev[3]] if ev[3] and ev[3][0] in ('call', 'loop') else ev[3], names, list(binders) + [(ev[1], ev[4])], g0, out)
    return out
NATIVE = {'F_iso_top': (0, 1), 'F_iso_bot': (0, 1), 'surface_b': (0, 1), 'omega': (1, 2), 'ltau': (1, 2), 'kernel_ampfac': (1, 2), 'kernel_params': (2, 3)}
SETTERS = {'F_iso_top': 'xrtm_set_F_iso_top', 'F_iso_bot': 'xrtm_set_F_iso_bot', 'surface_b': 'xrtm_set_surface_b', 'omega': 'xrtm_set_omega_1', 'ltau': 'xrtm_set_ltau_1', 'kernel_ampfac': 'xrtm_set_kernel_ampfac', 'kernel_params': 'xrtm_set_kernel_params_1'}
def perturb(ctx, mods, fail=None):
    """perturb_values(d, j, solver, f, coef)"""
    FN = 'perturb_values'; M = [mods[0]]
    def rd(p, *ix, s=None, g=TRUE): 
        for k in ix[:-1]: p = s.ex.load(s.ex.padd(p, scale(8, k)), ir.PTR, TRUE)
        return s.ex.load(s.ex.padd(p, scale(8, ix[-1])), ir.DBL, g)
    K1, K2 = ivar('sk1'), ivar('sk2')
    def set_levels(s, g, a): s.note.append(rd(a[1], K1, s=s)); return ic(5) if fail == 'xrtm_set_levels_b' else ZERO
    def set_coef(s, g, a): s.note.append(rd(a[3], K1, K2, s=s, g=andl([g, inb(K1, hold['H'].f('n_elem')), inb(K2, a[2])]))); return ic(5) if fail == 'xrtm_set_coef_1' else ZERO
    buf = []
    def alloc(s, g, a): f = Fam('levels'); f.scratch = False; buf.append(f); return ptr(f)
    res = {'xrtm_get_' + n: (lambda s, g, a, n=n: app('get_' + n, tuple(a[1:]), 'd')) for n in ('F_iso_top', 'F_iso_bot', 'surface_b', 'omega', 'ltau', 'kernel_ampfac', 'kernel_params', 'coef')}
    res.update({'xrtm_get_n_coef': lambda s, g, a: app('get_n_coef', (a[1],), 'i'), 'kernel_n_params': lambda s, g, a: npar(a[0]), 'alloc_array1_d': alloc, 'xrtm_set_levels_b': set_levels, 'xrtm_set_coef_1': set_coef, 'xrtm_get_levels_b': lambda s, g, a: ic(5) if fail == 'xrtm_get_levels_b' else ZERO, 'free_array1_d': None})
    for n in SETTERS.values(): res[n] = ic(5) if fail == n else ZERO
    hold = {}
    def hnd(s): hold['H'] = H = FdHandle(s.ex); return H.d.base
    def tbl(s):
        f = Fam('coef'); f.S = 8; f.ctype = lambda r: '*'; f.scratch = True
        c = f.child(0); c.S = 8; c.ctype = lambda r: 'v'; c.scratch = True
        return ptr(f)
    def req(s): hold['H'].freeze(); return hold['H'].wf() + [le(ZERO, s.a[1]), lt(s.a[1], hold['H'].f('n_derivs'))]
    R = guard.Run(M, FN, over={0: hnd, 4: tbl}, result=res, wf=False, requires=req, opaque=False)
    H = hold['H']; j, solver, f = R.a[1], R.a[2], R.a[3]; X = H.d.get(R.ex, 'd', time=R.t0)
    P = lambda n, c, g=TRUE: ctx.result('%s: %s' % (FN, n), prove.prove(c, g, R.facts, seed=ctx.seed))
    nog = eq0(band(solver, ic(K()['XRTM_SOLVERS_USE_G'])))
    if fail:
        trig = {'xrtm_set_levels_b': H.opt('SOURCE_THERMAL'), 'xrtm_get_levels_b': H.opt('SOURCE_THERMAL'), 'xrtm_set_surface_b': H.opt('SOURCE_THERMAL'), 'xrtm_set_kernel_ampfac': lt(ZERO, H.f('n_kernels')), 'xrtm_set_kernel_params_1': None, 'xrtm_set_coef_1': nog}.get(fail, TRUE)
        if trig is not None: P('a refusal of %s is reported' % fail, not_(eq0(R.rv)), trig)
        return
    P('success when every native call succeeds', eq0(R.rv), nog)
    cells = {'F_iso_top': TRUE, 'F_iso_bot': TRUE, 'surface_b': H.opt('SOURCE_THERMAL')}
    def each(name, S, n_idx, spec_cond, spec_val, argval):
        """exactly one call for every cell that satisfies spec_cond, with value spec_val"""
        evs = flat(R.ex.events, (S,))
        if not evs: ctx.violation('%s: %s is perturbed' % (FN, name), 'no call of ' + S); return
        for q, (bs, g, a, note) in enumerate(evs):
            gg = g
            for k, hi in bs: gg = andl([gg, le(ZERO, k), lt(k, hi)])
            gg = and_(gg, nog); lab = '%s%s' % (name, '' if len(evs) == 1 else ' (call %d)' % (q + 1))
            P(lab + ': of the own handle', peq(a[0], X), gg)
            ix = list(a[1:1 + n_idx])
            P(lab + ': only existing inputs', spec_cond(*ix), gg)
            for w, (gv, want, extra) in enumerate(argval(note, a, ix)):
                r = prove.prove_eq(gv, want, andl([gg, extra]), R.facts, ctx.seed)
                ctx.result('%s: %s: old value plus f times the perturbation%s' % (FN, lab, '' if not w else ' (%d)' % w), r)
            m = {k: ivar(k.a[0] + "'") if k.op == 'v' else k for k, hi in bs}
            if bs:
                g2 = subst(gg, m); ix2 = [subst(i, m) for i in ix]
                P(lab + ': every input once', andl([eq(k, m[k]) for k, _ in bs]), andl([gg, g2] + [eq(x, y) for x, y in zip(ix, ix2)]))
            for bs3, g3, a3, _n in evs[q+1:]:
                m3 = {k: ivar(k.a[0] + '"') for k, _ in bs3}; gq = subst(g3, m3)
                for k, hi in bs3: gq = andl([gq, le(ZERO, m3[k]), lt(m3[k], subst(hi, m3))])
                P(lab + ': not perturbed by another call too', not_(and_(gq, andl([eq(x, subst(y, m3)) for x, y in zip(ix, a3[1:1 + n_idx])]))) if n_idx else not_(gq), gg)
        ii = [ivar('cell%d' % q) for q in range(n_idx)]
        P(name + ': no input left out', R.called(S, args=lambda a: andl([eq(x, y) for x, y in zip(a[1:1 + n_idx], ii)])), and_(spec_cond(*ii), nog))
    pf = lambda n, *ix: H.f(n + '_p', *ix)
    val = lambda n, ix: dadd(app('get_' + n, tuple(ix), 'd'), dmul(f, pf(n, *(ix[:1] + [j] + ix[1:])) if n != 'x' else None))
    for n in ('F_iso_top', 'F_iso_bot', 'surface_b'):
        each(n, SETTERS[n], 0, lambda n=n: cells[n], None, lambda note, a, ix, n=n: [(a[1], dadd(app('get_' + n, (), 'd'), dmul(f, pf(n, j))), TRUE)])
    for n in ('omega', 'ltau'):
        each(n, SETTERS[n], 1, lambda i: inb(i, H.f('n_layers')), None, lambda note, a, ix, n=n: [(a[2], val(n, ix), TRUE)])
    each('kernel_ampfac', SETTERS['kernel_ampfac'], 1, lambda i: inb(i, H.f('n_kernels')), None, lambda note, a, ix: [(a[2], val('kernel_ampfac', ix), TRUE)])
    each('kernel_params', SETTERS['kernel_params'], 2, lambda i, k: and_(inb(i, H.f('n_kernels')), inb(k, npar(H.f('kernels', i)))), None, lambda note, a, ix: [(a[3], val('kernel_params', ix), TRUE)])
    NC = lambda i: app('get_n_coef', (i,), 'i')
    each('coef', 'xrtm_set_coef_1', 1, lambda i: inb(i, H.f('n_layers')), None,
         lambda note, a, ix: [(a[2], NC(ix[0]), TRUE), (note[0], dadd(app('get_coef', (ix[0], K1, K2), 'd'), dmul(f, H.f('coef_p', ix[0], j, K1, K2))), and_(inb(K1, H.f('n_elem')), inb(K2, NC(ix[0]))))])
    lev = lambda i: R.ex.load(R.ex.padd(ptr(buf[0]), scale(8, i)), ir.DBL, TRUE, time=0) if buf else D0
    each('levels_b', 'xrtm_set_levels_b', 0, lambda: H.opt('SOURCE_THERMAL'), None, lambda note, a, ix: [(note[0], dadd(lev(K1), dmul(f, H.f('levels_b_p', K1, j))), inb(K1, add(H.f('n_layers'), ONE)))])
    P('levels_b: read before it is perturbed', R.called('xrtm_get_levels_b', args=lambda a: and_(peq(a[0], X), peq(a[1], ptr(buf[-1]))) if buf else FALSE), H.opt('SOURCE_THERMAL'))

def tables(name, n, scratch=False):
    """an n-dimensional array: tables of pointers, and the cells"""
    f = Fam(name); x = f
    for q in range(n):
        x.S = 8; x.ctype = (lambda r: '*') if q < n - 1 else (lambda r: 'v'); x.scratch = scratch
        if q < n - 1: x = x.child(0)
    return ptr(f)
def walk(ex, p, ix, g=TRUE, time=None):
    for k in ix[:-1]: p = ex.load(ex.padd(p, scale(8, k)), ir.PTR, g, time)
    return ex.padd(p, scale(8, ix[-1]))
def fill(ex, p, ks, val, g, inst=None):
    """every cell with indices ks becomes val(ks) where g"""
    q = walk(ex, p, ks); f = q.a[0]; n = len(f.log)
    ex.store(q, ir.DBL, val, g, inst)
    for e in f.log[n:]: e.qv = tuple(ks)
FD = ('XRTM_FD_METHOD_FORWARD', 'XRTM_FD_METHOD_BACKWARD', 'XRTM_FD_METHOD_CENTRAL')
SIGN = (1, -1, 0)
def dim4(H, n_phi):
    f = H.f
    return [f('n_ulevels'), ite(eq0(f('n_umus')), f('n_quad'), f('n_umus')), n_phi, f('n_stokes')]
def solution(ctx, mods, m, fail=None):
    """xrtm_fd_solution(d, solver, solutions, method, n_phis, phis, I_p, I_m, I_p_l, I_m_l, ...)"""
    FN = 'xrtm_fd_solution'; hold = {}; nth = [0]
    def hnd(s): hold['H'] = H = FdHandle(s.ex); return H.d.base
    def req(s): hold['H'].freeze(); return hold['H'].wf() + [le(ZERO, s.a[4])]
    def net(s):
        """what the perturbations of this iteration add up to, and of which derivative"""
        c = D0; j = None
        for ev in s.ex.events:
            if ev[0] == 'call' and ev[2] == 'perturb_values': c = dadd(c, ev[4][3]); j = ev[4][1]
        return c, j
    def radiances(s, g, a, p, q):
        H = hold['H']; c, j = net(s); ks = [bound_var() for _ in range(4)]
        gg = andl([g] + [inb(k, n) for k, n in zip(ks, dim4(H, a[3] if s.cur == 'xrtm_solution' else a[2]))])
        tag = (c, j) if j is not None else (D0, ZERO)
        for d, x in ((0, p), (1, q)): fill(s.ex, x, ks, app('radiance', tag + (ic(d),) + tuple(ks), 'd'), gg, None)
        return ic(0)
    def rad(s, g, a): s.cur = 'xrtm_radiance'; r = radiances(s, g, a, a[4], a[5]); return ic(5) if fail == 'xrtm_radiance' else r
    def sol(s, g, a): s.cur = 'xrtm_solution'; r = radiances(s, g, a, a[5], a[6]); return ic(5) if fail == 'xrtm_solution' else r
    bufs = []
    def alloc4(s, g, a): s.al4 = getattr(s, 'al4', []) + [a]; p = tables('I2_%d' % len(bufs), 4, True); bufs.append(p); return p
    res = {'perturb_values': ic(5) if fail == 'perturb_values' else ZERO, 'xrtm_radiance': rad, 'xrtm_solution': sol, 'alloc_array2_d': lambda s, g, a: ptr(Fam('coef')), 'alloc_array4_d': alloc4, 'free_array2_d': None, 'free_array4_d': None}
    M = [mods[0]]; F = [fn for mod in M for fn in mod.funcs.values() if fn.name.lstrip('@') == FN]
    R = guard.Run(M, FN, over={0: hnd, 3: ic(m), 6: lambda s: tables('I_p', 4), 7: lambda s: tables('I_m', 4), 8: lambda s: tables('I_p_l', 5), 9: lambda s: tables('I_m_l', 5)}, result=res, wf=False, requires=req, opaque=False)
    H = hold['H']; X = H.d.get(R.ex, 'd', time=R.t0); nm = FD[m][15:].lower(); ND = H.f('n_derivs')
    P = lambda n, c, g=TRUE: ctx.result('%s: %s differences: %s' % (FN, nm, n), prove.prove(c, g, R.facts, seed=ctx.seed))
    if fail:
        P('a failure of %s is reported' % fail, not_(eq0(R.rv)), TRUE if fail == 'xrtm_radiance' else lt(ZERO, ND)); return
    P('success when every call succeeds', eq0(R.rv))
    a = [c[2] for c in R.calls if c[0] == 'xrtm_radiance']
    P('the unperturbed radiances are computed with the given solver and angles', R.called('xrtm_radiance', args=lambda a: andl([peq(a[0], X), eq(a[1], R.a[1]), eq(a[2], R.a[4]), peq(a[3], R.a[5]), peq(a[4], R.a[6]), peq(a[5], R.a[7])])))
    tot = {}
    for q, (bs, g, a, note) in enumerate(flat(R.ex.events, ('perturb_values',))):
        if len(bs) != 1: ctx.undecided('%s: %s' % (FN, nm), 'perturb_values in %d loops' % len(bs)); return
        k, hi = bs[0]; gg = andl([g, le(ZERO, k), lt(k, hi)])
        P('perturbation %d is of the derivative in turn' % (q + 1), andl([eq(a[1], k), peq(a[0], H.d.base), eq(a[2], R.a[1]), eq(hi, ND)]), gg)
        P('perturbation %d is made for every derivative' % (q + 1), g, and_(le(ZERO, k), lt(k, ND)))
        tot.setdefault(k, D0); tot[k] = dadd(tot[k], a[3])
    for q, (bs, g, a, note) in enumerate(flat(R.ex.events, ('xrtm_solution',))):
        gg = g
        for k, hi in bs: gg = andl([gg, le(ZERO, k), lt(k, hi)])
        P('solution %d: solver and angles as given, radiances among the requested outputs as given' % (q + 1), andl([peq(a[0], X), eq(a[1], R.a[1]), eq(a[2], R.a[2]), eq(a[3], R.a[4]), peq(a[4], R.a[5])]), gg)
    for k, v in tot.items(): ctx.result('%s: %s differences: the perturbations of one derivative add up to nothing' % (FN, nm), prove.prove_eq(v, D0, TRUE, R.facts, ctx.seed))
    if not tot: ctx.violation('%s: %s differences: inputs are perturbed' % (FN, nm), 'no call of perturb_values')
    for q, n_ in enumerate(R.al4): P('buffer %d holds the radiances' % (q + 1), andl([eq(x, y) for x, y in zip(n_, dim4(H, R.a[4]))]))
    i, j, k, l, n = [ivar(x) for x in 'ijkln']
    dom = andl([inb(x, y) for x, y in zip((i, k, l, n), dim4(H, R.a[4]))] + [inb(j, ND)])
    for d, (b, bl) in enumerate(((6, 8), (7, 9))):
        u = lambda c: app('radiance', ((dc(c), j) if c else (D0, ZERO)) + (ic(d), i, k, l, n), 'd')
        got = R.ex.load(walk(R.ex, R.a[bl], [i, j, k, l, n], dom), ir.DBL, dom)
        dl = H.f('delta', j); fr = SIGN[m]
        want = ddiv(dsub(u(fr), u(0)), dmul(dc(fr), dl)) if fr else ddiv(dsub(u(1), u(-1)), dmul(dc(2), dl))
        ctx.result('%s: %s differences: I_%s_l[*][*][*][*][*]' % (FN, nm, 'pm'[d]), prove.prove_eq(got, want, dom, R.facts, ctx.seed))
        got = R.ex.load(walk(R.ex, R.a[b], [i, k, l, n], dom), ir.DBL, dom)
        ctx.result('%s: %s differences: I_%s[*][*][*][*] are those of the unperturbed inputs' % (FN, nm, 'pm'[d]), prove.prove_eq(got, u(0), dom, R.facts, ctx.seed))

def wrapper(ctx, mods):
    """xrtm_fd_radiance() is xrtm_fd_solution() asked for radiances"""
    FN = 'xrtm_fd_radiance'; hold = {}
    def hnd(s): hold['H'] = H = FdHandle(s.ex); return H.d.base
    def req(s): hold['H'].freeze(); return hold['H'].wf()
    ret = ivar('status')
    R = guard.Run([mods[0]], FN, over={0: hnd}, result={'xrtm_fd_solution': ret}, wf=False, requires=req, opaque=False)
    P = lambda n, c, g=TRUE: ctx.result('%s: %s' % (FN, n), prove.prove(c, g, R.facts, seed=ctx.seed))
    a = R.a; same = lambda x, y: peq(x, y) if y.s == 'p' else eq(x, y)
    P('every argument forwarded in its place', R.called('xrtm_fd_solution', args=lambda c: andl([same(c[0], hold['H'].d.base), eq(c[1], a[1]), eq(c[3], a[2]), eq(c[4], a[3])] + [same(c[q + 5], a[q + 4]) for q in range(5)] + [not_(eq0(band(c[2], ic(__import__('vf.build').build.consts('XRTM_OUTPUT_RADIANCE')))))])))
    P('the status is that of the solution', eq0(R.rv), eq0(ret)); P('a failure is reported', not_(eq0(R.rv)), not_(eq0(ret)))
def create(ctx, mods):
    """xrtm_fd_create(fd, d, n_derivs)"""
    FN = 'xrtm_fd_create'; hold = {}; tabs = []
    def hnd(s):
        hold['H'] = H = FdHandle(s.ex); s.ex.store(H.d.addr('d'), ir.PTR, ptr(H.x.fam, (ZERO,)) if False else H.d.get(s.ex, 'd', time=0), TRUE); return H.d.base
    def al(s, g, a): f = Fam('array%d' % len(tabs)); tabs.append((s.calls[-1][0], a, g, f)); return ptr(f)
    def req(s): hold['H'].freeze(); s.hx = hold['H']; return hold['H'].wf()
    res = {'jalloc_array%d' % n: al for n in range(1, 8)}; res.update({'_setjmp': ZERO, 'setjmp': ZERO, '__sigsetjmp': ZERO})
    R = guard.Run([mods[0]], FN, over={0: hnd, 1: lambda s: hold['H'].d.get(s.ex, 'd', time=0)}, result=res, wf=False, requires=req, opaque=False)
    H = hold['H']; ex = R.ex
    P = lambda n, c, g=TRUE: ctx.result('%s: %s' % (FN, n), prove.prove(c, g, R.facts, seed=ctx.seed))
    bad = H.opt('CALC_DERIVS')
    P('refused for a handle that calculates derivatives itself', not_(eq0(R.rv)), bad); P('accepted otherwise', eq0(R.rv), not_(bad))
    P('number of derivatives and handle stored', and_(eq(H.d.get(ex, 'n_derivs'), R.a[2]), peq(H.d.get(ex, 'd'), R.a[1])), not_(bad))
    num = lambda n: R.a[2] if n == 'D' else H.dim(n)
    for f, (cond, dims) in FDIMS.items():
        if f == 'd' or f.startswith('d.'): continue
        c = and_(H.cond(cond), not_(bad)); p = H.d.get(ex, f); dm = [num(x) for x in dims]
        P('%s has its dimensions' % f, orl([and_(g, andl([peq(p, ptr(F)), eq(a[-1], ic(8))] + [eq(x, y) for x, y in zip(a[1:-1], dm)])) for nm, a, g, F in tabs if nm == 'jalloc_array%d' % len(dims)]), c)
        if f != 'delta': P('%s is zero' % f, R.called('init_array%d_d' % len(dims), args=lambda a: andl([peq(a[0], p)] + [eq(x, y) for x, y in zip(a[1:-1], dm)] + [TRUE if a[-1] is D0 else FALSE])), c)
def destroy(ctx, mods):
    """xrtm_fd_destroy(fd) gives back what xrtm_fd_create() allocated, nothing twice"""
    FN = 'xrtm_fd_destroy'; hold = {}
    def hnd(s): hold['H'] = H = FdHandle(s.ex); return H.d.base
    def req(s): hold['H'].freeze(); return hold['H'].wf()
    R = guard.Run([mods[0]], FN, over={0: hnd}, wf=False, requires=req, opaque=False, result={'free_array%d_d' % n: None for n in range(1, 8)})
    H = hold['H']
    P = lambda n, c, g=TRUE: ctx.result('%s: %s' % (FN, n), prove.prove(c, g, R.facts, seed=ctx.seed))
    fl = {n: flat(R.ex.events, ('free_array%d_d' % n,)) for n in range(1, 8)}
    for f, (cond, dims) in FDIMS.items():
        if f == 'd' or f.startswith('d.'): continue
        c = H.cond(cond); p = H.d.get(R.ex, f, time=R.t0)
        hits = [(g, peq(a[0], p)) for bs, g, a, _ in fl[len(dims)] if not bs]
        hits = [(g, h) for g, h in hits if h is not FALSE]
        P('%s is freed' % f, orl([and_(g, h) for g, h in hits]), c)
        P('%s is not freed without having been allocated' % f, not_(orl([and_(g, h) for g, h in hits])), not_(c))
        for x in range(len(hits)):
            for y in range(x): P('%s is freed once' % f, not_(andl([*hits[x], *hits[y]])), c)

def run(ctx):
    iface.K(); iface.structs.layouts(); build_apis()
    mods = ctx.load(*SRC)
    iface.check_all(ctx, mods, A, {'effect', 'error', 'bounds'})
    def one(c, j):
        try: {'p': perturb, 's': solution, 'w': wrapper, 'c': create, 'd': destroy}[j[0]](c, mods, *j[1:])
        except (Unsupported, solve.TooBig, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, prove.OutOfTime) as e:
            if os.environ.get('VF_TRACE'): import traceback; traceback.print_exc()
            c.undecided(str(j), '%s: %s' % (type(e).__name__, e))
    ctx.par([('w',), ('c',), ('d',), ('p',)] + [('p', s) for s in list(SETTERS.values()) + ['xrtm_set_coef_1', 'xrtm_set_levels_b', 'xrtm_get_levels_b']] + [('s', m) for m in (0, 1, 2)] + [('s', m, e) for m in (0, 2) for e in ('perturb_values', 'xrtm_solution', 'xrtm_radiance')], one)
    ctx.run_native('differences of independent solves', '250 random configurations, all three methods')
    ctx.assume('the native setters and getters store and return the inputs (C01), a solve does not change them (C06)')
    ctx.assume('restored in real arithmetic: x + p - p equals x up to rounding')

