"""C15: direct-beam attenuation through the layers and the spherical path factors, values and exact derivatives."""
from vf.contract import *
from vf.terms import *
from vf import solve, prove, structs, iface, ir
from vf.guard import Run
from vf.loops import first, exists
from vf.sym import Unsupported, Ent, Fam
FLOOR = 20
NAME = 'beam'
M = ('src/xrtm_model.c', 'src/xrtm_interface.c', 'src/xrtm_utility.c')
DEP = 'dep_flags_beam_params'
class B:
    """one entry point, one geometry"""
    def __init__(s, mods, fn, psa, derivs, last=False):
        s.fn = fn; s.psa = psa; s.last = last
        def req(R):
            H = s.H = R.H; ex = s.ex = R.ex; s.R = R
            nl = H.f('n_layers')
            lv = nl if fn.endswith('_all') else R.a[1]
            s.n2 = nl if fn.endswith('_all') or last else add(lv, ONE)
            deps = ex.exec_function(ex.funcs['beam_params_deps'], [R.a[0]], TRUE)
            s.dirty = lambda k: not_(eq0(band(H.f(DEP, k), deps)))
            k = bound_var(); s.st = ite(exists(k, s.n2, s.dirty(k)), first(k, s.n2, s.dirty(k)), s.n2)
            s.rec('beam:tau', 'ltau', 'btau', 0); s.rec('beam:tau_l', 'ltau_l', 'btau_l', 1)
            f = [H.opt('SOURCE_SOLAR'), H.opt('PSA') if psa else not_(H.opt('PSA')), H.opt('CALC_DERIVS') if derivs else not_(H.opt('CALC_DERIVS'))]
            if not fn.endswith('_all'): f += [le(ZERO, lv), lt(lv, nl)] if not last else [eq(lv, nl)]
            return f
        s.R = Run(mods, fn, inline=('beam_params_update',), opaque=False, requires=req, result={'update_opt_props': lambda R, g, a: None, 'get_chapman': s.chapman})
    def chapman(s, R, g, a):
        """any values may be found in the table after the call"""
        ex = s.ex; i, j = bound_var(-(1 << 30)), bound_var(-(1 << 30)); t = s.H.d.base_at(s.H.d.field('chapman')[0])
        p = ex.padd(ex.load(ex.padd(ex.load(t, ir.PTR, g), scale(8, i)), ir.PTR, g), scale(8, j))
        path, off = ex.norm(p.a[0], p.a[1], p.a[2], 8)
        e = Ent('st', g, path, off, 8, app('chap', (i, j), 'd'), ir.DBL)
        e.rawpath, e.rawoff, e.qv = p.a[1], p.a[2], (i, j); ex._push(p.a[0], e)
        ex.store(a[1], ir.PTR, ex.load(t, ir.PTR, g), g)
    def rec(s, nm, cur, prev, n):
        H = s.H
        def D(p): return ite(le(p[1], s.st), H.f(prev, p[1], *p[2:]), s.step(nm, cur, p[1], tuple(p[2:])))
        s.ex.recur[H.d.fam_of(s.ex, prev)] = (1, 1, lambda p: app(nm, tuple(p[1:]), 'd'), D)
    def step(s, nm, cur, i, r):
        """the optical depth along the beam down to level i: the layers above it, each with its path factor"""
        k = bound_var(); u = sub(i, ONE); H = s.H
        if s.psa: return dsum(k, i, dmul(H.f(cur, k, *r), app('chap', (u, k), 'd')))
        return dadd(app(nm, (u,) + r, 'd'), ddiv(H.f(cur, u, *r), H.f('mu_0')))
    def posts(s, ctx, derivs):
        H = s.H; ex = s.ex; R = s.R; lab = '%s [%s%s%s]: ' % (s.fn, 'spherical' if s.psa else 'plane parallel', ', derivatives' if derivs else '', ', last level' if s.last else '')
        names = {r[0].split(' of ')[1].split(' in ')[0] for r in ex.invobl.values()}
        need = [H.d.fam_of(ex, 'btau').name] + ([H.d.fam_of(ex, 'btau_l').name] if derivs else [])
        if any(n not in names for n in need): ctx.undecided(lab + 'recurrence', 'the optical depths are not computed by a recurrence over levels'); return
        for nm, r in ex.invobl.values(): ctx.result(lab + nm.split(' in ')[0], r)
        i, j = ivar('layer', 0, 1 << 29), ivar('deriv', 0, 1 << 29); V = lambda i: app('beam:tau', (i,), 'd'); Vl = lambda i: app('beam:tau_l', (i, j), 'd')
        i1 = add(i, ONE); g = andl([R.pre, le(s.st, i), lt(i, s.n2), le(ZERO, i)]); gl = andl([g, le(ZERO, j), lt(j, H.f('n_derivs'))])
        lt_, ltl = H.f('ltau', i), H.f('ltau_l', i, j)
        X = dvar('X!')
        as0 = ddiv(dsub(X, V(i)), lt_); x = s.step('beam:tau', 'ltau', i1, ()); xl = s.step('beam:tau_l', 'ltau_l', i1, (j,))
        want = [('btran', i1, dfn('exp', dneg(X))), ('as_0', i, as0), ('atran', i, dfn('exp', dneg(dmul(lt_, as0))))]
        seed = lambda t: {V(i): Vl(i), X: xl, lt_: ltl}.get(t)
        for f, v, d in (('btau', V(i1), g),) + ((('btau_l', Vl(i1), gl),) if derivs else ()): ctx.result(lab + f, prove.prove_eq(H.now(f, i1, *(j,)[:f[-1] == 'l'], g=d), v, d, R.facts, ctx.seed))
        for f, ix, v in want:
            v0 = subst(v, {X: x})
            ctx.result(lab + f, prove.prove_eq(H.now(f, ix, g=g), v0, g, R.facts, ctx.seed))
            ctx.result(lab + f + ' outside the updated layers', prove.prove_eq(*(lambda o: (H.now(f, ix, g=o), H.f(f, ix), o))(andl([R.pre, le(ZERO, i), not_(and_(le(s.st, i), lt(i, s.n2)))])), R.facts, ctx.seed))
            if derivs: ctx.result(lab + f + '_l', prove.prove_eq(H.now(f + '_l', ix, j, g=gl), subst(solve.diff(v, seed), {X: x}), gl, R.facts, ctx.seed))
        # frame: the levels that are not updated, and level 0
        l = ivar('level', 0, 1 << 29); o = andl([R.pre, le(l, H.f('n_layers')), not_(and_(le(s.st, sub(l, ONE)), le(l, s.n2)))])
        ctx.result(lab + 'btau outside the updated levels', prove.prove_eq(H.now('btau', l, g=o), H.f('btau', l), o, R.facts, ctx.seed))
        if derivs:
            o2 = andl([o, lt(j, H.f('n_derivs'))])
            for f in ('btau_l', 'btran_l'): ctx.result(lab + f + ' outside the updated levels', prove.prove_eq(H.now(f, l, j, g=o2), H.f(f, l, j), o2, R.facts, ctx.seed))
            o2 = andl([R.pre, le(ZERO, i), lt(i, H.f('n_layers')), not_(and_(le(s.st, i), lt(i, s.n2))), lt(j, H.f('n_derivs'))])
            for f in ('as_0_l', 'atran_l'): ctx.result(lab + f + ' outside the updated layers', prove.prove_eq(H.now(f, i, j, g=o2), H.f(f, i, j), o2, R.facts, ctx.seed))
        # the thicknesses, heights and the sun angle are inputs
        for f, ix, g_ in (('ltau', (i,), R.pre), ('mu_0', (), R.pre)): ctx.result(lab + f + ' is left alone', prove.prove_eq(H.now(f, *ix, g=g_), H.f(f, *ix), g_, R.facts, ctx.seed))
        # the table of path factors is brought up to date before it is used
        any_ = exists(*(lambda k: (k, s.n2, s.dirty(k)))(bound_var()))
        if s.psa: ctx.result(lab + 'path factors are up to date', prove.prove(R.called('get_chapman'), and_(R.pre, any_), R.facts))
    def fresh(s, ctx):
        """the optical properties of every layer that enters are brought up to date"""
        from props.c19 import flat
        R, H = s.R, s.H; i = ivar('layer', 0, 1 << 29); g = andl([R.pre, le(s.st, i), lt(i, s.n2), le(ZERO, i)]); cov = FALSE
        for bs, cond, args, _ in flat(R.ex.events, {'update_opt_props'}):
            a = args[1]
            if not bs: cov = or_(cov, and_(cond, eq(a, i))); continue
            if len(bs) > 1: raise Unsupported('nested loops around update_opt_props')
            v, n = bs[0]; c0 = subst(a, {v: ZERO})
            if sub(a, v) is not c0: raise Unsupported('index of update_opt_props')
            w = sub(i, c0); cov = or_(cov, andl([le(ZERO, w), lt(w, n), subst(cond, {v: w})]))
        ctx.result('%s: the optical properties of every layer it takes are up to date' % s.fn, prove.prove(cov, g, R.facts))
        l = ivar('ix:0', 0); new, old = H.now(DEP, l, g=R.pre), H.f(DEP, l)
        for b in range(32):
            ctx.result('%s: bit %d of the flag of a layer is cleared only when the layer is calculated' % (s.fn, b), prove.prove(implies(and_(bit(old, ic(b) if 0 else b), not_(bit(new, b))), and_(le(s.st, l), lt(l, s.n2))), andl([R.pre, le(ZERO, l), lt(l, H.f('n_layers'))]), R.facts))
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
def chapman():
    """the chord of the solar ray through layer j on its way down to level i+1, divided by the thickness of the layer; a layer of no thickness is given the factor of the layer above"""
    def f(S, i, j):
        z = lambda k: dadd(S.a['z0'], S.v('z', k)); r1, r2, q = z(j), z(add(j, ONE)), z(add(i, ONE))
        b = dmul(dmul(q, q), dsub(D1, dmul(S.a['mu_0'], S.a['mu_0'])))
        return ddiv(dsub(dfn('sqrt', dsub(dmul(r1, r1), b)), dfn('sqrt', dsub(dmul(r2, r2), b))), dsub(r1, r2)), deq(r1, r2)
    def setup(S):
        def D(p):
            i, j = p; v, e = f(S, i, j); return ite(lt(j, ZERO), S.v('chap', i, j), ite(e, app('chord', (i, sub(j, ONE)), 'd'), v))
        S.ex.recur[S.data('chap')] = (1, 1, lambda p: app('chord', tuple(p), 'd'), D)
    def out(S, i, j):
        c = andl([inb(i, S.a['n_layers']), le(ZERO, j), le(j, i)]); v, e = f(S, i, j)
        if S.ex.invobl: return c, app('chord', (i, j), 'd')
        return and_(c, not_(e)), v
    return Contract('chapman_functions', [Int('n_layers', 0, 100000), Dbl('mu_0'), Dbl('z0'), Arr('z', 'd', 'n_layers+1'), Arr('chap', 'd', 'n_layers', 'n_layers')], [('chap', 2, out)],
                    setup=setup, real_ranges={'mu_0': (.1, .9), 'z0': (5, 6), 'z': (.1, 1)}, replay=False)
def get_chapman(ctx, mods):
    out = ptr(Fam('out')); R = Run(mods, 'get_chapman', opaque=False, over={1: out}); H = R.H; nm = 'get_chapman: '
    cs = R.called('chapman_functions'); dirty = not_(eq0(band(H.f('dep_flags_chapman'), R.ex.exec_function(R.ex.funcs['chapman_deps'], [R.a[0]], TRUE))))
    ctx.result(nm + 'the table is computed when one of its inputs has changed', prove.prove(cs, and_(R.pre, dirty), R.facts))
    for name, g, a in R.calls:
        if name != 'chapman_functions': continue
        for k, (x, what) in enumerate(((H.f('n_layers'), 'number of layers'), (H.f('mu_0'), 'sun angle'), (H.f('planet_r'), 'radius'), (H.f('levels_z'), 'heights'), (H.f('chapman'), 'table'))):
            ctx.result(nm + what, prove.prove_eq(a[k], x, and_(R.pre, g), R.facts, ctx.seed))
    ctx.result(nm + 'the table is returned', prove.prove_eq(R.ex.load(out, ir.PTR, R.pre), H.f('chapman'), R.pre, R.facts, ctx.seed))
ERR = (Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError, RecursionError, solve.TooBig, prove.OutOfTime)
def run(ctx):
    mods = ctx.load(*M); jobs = [(fn, psa, de, la) for fn in ('update_beam_params', 'update_beam_params_all') for psa in (0, 1) for de in (1, 0) for la in ((0, 1) if fn[-1] == 's' else (0,))] + ['path factors', 'table']
    structs.layouts(); iface.K()
    def one(c, what):
        try:
            if what == 'path factors': c.check(chapman(), 'src/xrtm_utility.c')
            elif what == 'table': get_chapman(c, mods)
            else: fn, psa, de, la = what; b = B(mods, fn, psa, de, la); b.posts(c, de); b.fresh(c)
        except ERR as e:
            import os, traceback
            if os.environ.get('VF_TRACE'): traceback.print_exc()
            c.undecided(str(what), '%s: %s' % (type(e).__name__, e))
    ctx.par(jobs, one)
    ctx.run_native('optical depth along the beam against traced rays and central differences', 'replay/C15.c: random atmospheres, both geometries')
