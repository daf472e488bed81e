"""C07: derivative activity tables are complete and exact."""
from vf.contract import *
from vf.terms import *
from vf import iface, handle, guard, prove, solve, build
from vf.handle import K, Handle
from vf.sym import Unsupported
from props.c06 import safe
FLOOR = 40
U = 'src/xrtm_utility.c'
ADD = {}
def consts():
    if not ADD:
        n = ['ADDING_%s_%s' % (a, b) for a in 'USLB' for b in 'USLB']
        ADD.update(zip(n, build.consts(*n)))
    return ADD
def nz(t): return not_(eq0(t))
def truth(S, name, *ix): return nz(S.cell(name, ix, S.t0))
def rng2(i, n): return and_(le(ZERO, i), lt(i, n))

def mkd(S):
    S.H = Handle(S.ex); S.facts += S.H.wf()
    return S.H.d.base
L = lambda S: S.H.f('n_layers')
L1 = lambda S: add(S.H.f('n_layers'), ONE)
ND = lambda S: S.H.f('n_derivs')
TAB = lambda n, rows=L1: Arr(n, 'uc', rows, ND)
FLAG = lambda n: Arr(n, 'uc', L1, ND, lo=0, hi=127)
def rec(calls, name):
    def h(ex, g, a, I):
        calls.append((name, g, a))
        return app(ex.fresh('ret'), (), 'i') if I.ty.k == 'i' else None
    return h

def table(ctx, mods, fn, params, out, spec, rows=L1, exact=False, pre_=None, calls_fill=True, hz=()):
    """the table `out` holds spec(i, j) for every layer i and derivative j, nothing else is changed, and the summaries over the
    derivatives are filled from the finished table"""
    calls = []
    con = {'flags_fill_meta2': rec(calls, 'flags_fill_meta2')}
    if 'kernel_n_params' in hz: con['kernel_n_params'] = lambda ex, g, a, I: app('kernel_n_params', (a[0],), 'i')
    fo = []
    def needs(ex, g, a, I): fo.append((g, a)); return app('brdf_needs_fourier', (), 'i')
    if 'brdf_needs_fourier' in hz: con['brdf_needs_fourier'] = needs
    S = Session(mods, [Other('d', mkd)] + params, con); S.four = app('brdf_needs_fourier', (), 'i')
    ex = S.ex; F = ex.funcs.get(fn)
    if F is None: raise Unsupported('no function ' + fn)
    if len(F.params) != len(S.args) or any((ty.k == 'i') != isinstance(p, Int) for (nm, ty, bv), p in zip(F.params, S.params)): raise Unsupported('parameter list of %s changed' % fn)
    S.H.freeze(); S.t0 = ex.time
    pre = TRUE
    if pre_: S.facts += pre_(S)
    for f in S.facts:
        if type(f) is not tuple and f.op in ('le0', 'eq0', 'not', 'app'): pre = and_(pre, f)
    ex.facts = list(S.facts); ex.solver = solve.make_solver(S.facts)
    ex.exec_function(F, S.args, pre)
    smp = iface.sampler(S, iface.Api(fn, []))
    i, j = ivar('ix:%s0' % out, 0), ivar('ix:%s1' % out, 0)
    g = andl([pre, rng2(i, rows(S)), rng2(j, ND(S))])
    def P(name, c, g=g): ctx.result('%s: %s' % (fn, name), prove.prove(c, g, S.facts, sampler=smp, seed=ctx.seed))
    for gg, a in fo: P('the kernels of the handle are examined', andl([peq(a[0], S.H.f('kernels_') if False else S.H.d.get(ex, 'kernels', time=S.t0)), eq(a[1], S.H.f('n_kernels'))]), and_(pre, gg))
    fin = S.cell(out, [i, j], None, g); want = spec(S, i, j)
    if exact: P('%s[layer][derivative]' % out, eq(fin, want))
    else:
        P('%s: marked when the quantity can depend' % out, implies(want, nz(fin)))
        P('%s: marked only when the quantity can depend' % out, implies(nz(fin), want))
    # frame
    ro = and_(pre, not_(and_(rng2(i, rows(S)), rng2(j, ND(S)))))
    P('frame of ' + out, eq(S.cell(out, [i, j], None, ro), S.cell(out, [i, j], S.t0, ro)), ro)
    def walk(f):
        yield f
        for c in f.children.values(): yield from walk(c)
    for p in S.params:
        if isinstance(p, Arr) and p.name != out:
            for f in walk(S.fams[p.name]):
                if f.log: raise Unsupported('%s is written by %s' % (p.name, fn))
    for f in walk(S.H.d.fam):
        if f.log: raise Unsupported('the handle is written by ' + fn)
    if calls_fill:
        fc = FALSE; q = S.a[out]; ordered = True
        for nm, gg, a in calls: fc = or_(fc, andl([gg, peq(a[0], q), eq(a[1], rows(S)), eq(a[2], ND(S))]))
        if not calls: ctx.result('%s: summaries filled' % fn, prove.Result(False, 'calls', 'flags_fill_meta2 is never called'))
        else: P('summaries filled for all layers and derivatives', fc, pre)
    ctx.stat(ex)

def exists_le(S, i, f):
    return exists_(add(i, ONE), f)
def exists_(hi, f):
    k = bound_var(); return exists(k, hi, f(k))

def beam(S, i, j): return exists_le(S, i, lambda k: truth(S, 'derivs_layers', k, j))
def total(S, i, j): return exists_(L1(S), lambda k: or_(truth(S, 'derivs_layers', k, j), truth(S, 'derivs_sources', k, j)))
def thermal(S, i, j):
    f = S.H.f; D0_ = lambda t: not_(deq(t, D0))
    lay = orl([truth(S, 'derivs_layers', i, j), D0_(f('levels_b_l', i, j)), D0_(f('levels_b_l', add(i, ONE), j))])
    return ite_b(lt(i, L(S)), lay, or_(truth(S, 'derivs_layers', i, j), D0_(f('surface_b_l', j))))
def layers(S, i, j):
    f = S.H.f; n0 = lambda t: not_(deq(t, D0))
    lay = orl([n0(f('ltau0_l', i, j)), n0(f('omega0_l', i, j)), exists_(f('n_elem'), lambda k: exists_(f('n_coef_layer', i), lambda l: n0(f('coef0_l', i, j, k, l))))])
    kp = lambda k: app('kernel_n_params', (f('kernels', k),), 'i')
    use = or_(nz(S.a['flag']), nz(S.four))
    sur = and_(use, exists_(f('n_kernels'), lambda k: or_(n0(f('kernel_ampfac_l', k, j)), exists_(kp(k), lambda l: n0(f('kernel_params_l', k, j, l))))))
    return ite_b(lt(i, L(S)), lay, sur)
def sources(S, i, j):
    return or_(and_(S.H.opt('SOURCE_SOLAR'), truth(S, 'derivs_beam', i, j)), and_(S.H.opt('SOURCE_THERMAL'), truth(S, 'derivs_thermal', i, j)))
def code(S, up, i, j):
    """combination code of the part above (before) the layer with the layer itself"""
    A = consts(); l = lambda k: truth(S, 'derivs_layers', k, j); s = lambda k: truth(S, 'derivs_sources', k, j)
    n = L1(S)
    if up:
        pl, ps = [exists_(sub(sub(n, ONE), i), lambda k, f=f: f(add(add(i, ONE), k))) for f in (l, s)]
    else: pl, ps = [exists_(i, f) for f in (l, s)]
    here = (l(i), s(i)); there = (pl, ps)
    nm = {(0, 0): 'U', (0, 1): 'S', (1, 0): 'L', (1, 1): 'B'}
    r = None
    for a in nm:
        for b in nm:
            first, second = (nm[a], nm[b]) if not up else (nm[b], nm[a])
            c = andl([t if v else not_(t) for t, v in zip(there + here, a + b)])
            v = ic(A['ADDING_%s_%s' % (first, second)])
            r = v if r is None else ite(c, v, r)
    return r
def stacks(S, i, j):
    A = consts(); l = lambda k: truth(S, 'derivs_layers', k, j)
    own = ite_b(eq(i, ZERO), l(ZERO), l(sub(i, ONE)))
    above = and_(lt(ZERO, i), exists_(i, l))
    return ite(above, ic(A['ADDING_S_S']), ite(and_(eq(i, ZERO), l(ZERO)), ic(A['ADDING_U_S']), ic(A['ADDING_U_U'])))

TABLES = {
 'build_derivs_beam': ([TAB('derivs_layers'), TAB('derivs_beam')], 'derivs_beam', beam, {}),
 'build_derivs_total': ([TAB('derivs_layers'), TAB('derivs_sources'), TAB('derivs_total', lambda S: ONE)], 'derivs_total', total, dict(rows=lambda S: ONE)),
 'build_derivs_thermal': ([TAB('derivs_layers'), TAB('derivs_thermal')], 'derivs_thermal', thermal, {}),
 'build_derivs_sources': ([TAB('derivs_layers'), FLAG('derivs_beam'), FLAG('derivs_thermal'), TAB('derivs_sources')], 'derivs_sources', sources, {}),
 'build_derivs_adding_down': ([TAB('derivs_layers'), TAB('derivs_sources'), TAB('derivs_adding_down')], 'derivs_adding_down', lambda S, i, j: code(S, False, i, j), dict(exact=True)),
 'build_derivs_adding_up': ([TAB('derivs_layers'), TAB('derivs_sources'), TAB('derivs_adding_up')], 'derivs_adding_up', lambda S, i, j: code(S, True, i, j), dict(exact=True)),
 'build_derivs_stacks': ([TAB('derivs_layers'), TAB('derivs_stacks')], 'derivs_stacks', stacks, dict(exact=True)),
}
def four(ex, g, a, I): raise Unsupported('x')
TABLES['build_derivs_layers'] = ([TAB('derivs_layers'), Int('flag')], 'derivs_layers', layers, dict(hz=('brdf_needs_fourier', 'kernel_n_params')))
def tab(ctx, mods, fn):
    p, o, sp, kw = TABLES[fn]; table(ctx, mods, fn, p, o, sp, **kw)

# ------------------------------------------------------------ flags and their summaries
def off():
    return [c for c in build.consts('sizeof(flags_meta_data)', '(long) &((flags_meta_data *) 0)->or_', '(long) &((flags_meta_data *) 0)->and_', '(long) &((flags_meta_data *) 0)->count', headers=('xrtm_utility.c',))]
def meta(ex, row, which, g=TRUE, time=None):
    sz, o, a, c = off(); from vf import ir
    return ex.load(ex.padd(row, ic(dict(or_=o, and_=a, count=c)[which] - sz)), ir.I32 if which == 'count' else ir.I8, g, time)
def fill(ctx, mods, fn):
    """the summaries hold the or, the and and the number of the flags of the row; the flags themselves are not changed"""
    two = fn.endswith('2')
    dims = ['m', 'n'] if two else ['n']
    S = Session(mods, [Arr('flags', 'uc', *dims)] + [Int(d, 1, 1000000) for d in dims]); ex = S.ex
    F = ex.funcs.get(fn)
    if F is None or len(F.params) != len(S.args): raise Unsupported('parameters of %s changed' % fn)
    pre = andl(S.facts); r = ex.exec_function(F, S.args, pre); smp = sampler_for(S, Contract(fn, S.params))
    def P(name, c, g=pre):
        cs = c if isinstance(c, list) else [c]
        for q in cs:
            R = prove.prove(q, g, S.facts, sampler=smp, seed=ctx.seed)
            if R.ok: break
        ctx.result('%s: %s' % (fn, name), R)
    n = S.a['n']; fl = lambda *ix: nz(S.cell('flags', ix, S.t0))
    cnt = lambda *pre_: isum1(n, lambda k: ite(fl(*pre_, k), ONE, ZERO))
    row = lambda i: ex.load(ex.padd(S.a['flags'], scale(8, i)), ir_PTR(), TRUE, S.t0)
    if two:
        i = ivar('ix:row', 0); m = S.a['m']; g = andl([pre, lt(i, m)])
        some = lambda k: exists_(n, lambda j: fl(k, j)); every = lambda k: not_(exists_(n, lambda j: not_(fl(k, j))))
        P('or of a row', iff(nz(meta(ex, row(i), 'or_')), some(i)), g)
        P('and of a row', iff(nz(meta(ex, row(i), 'and_')), every(i)), g)
        P('count of a row', eq(meta(ex, row(i), 'count'), cnt(i)), g)
        P('or of all rows', iff(nz(meta(ex, S.a['flags'], 'or_')), exists_(m, some)))
        P('and of all rows', iff(nz(meta(ex, S.a['flags'], 'and_')), not_(exists_(m, lambda k: not_(every(k))))))
        c2 = [isum1(m, lambda k: ite(some(k), cnt(k), ZERO)), isum1(m, lambda k: cnt(k))]
        P('count of all rows', [eq(meta(ex, S.a['flags'], 'count'), c) for c in c2]); P('returns the count', [eq(r, c) for c in c2])
        ix = (ivar('ix:r', 0), ivar('ix:c', 0))
    else:
        P('or', iff(nz(meta(ex, S.a['flags'], 'or_')), exists_(n, fl))); P('and', iff(nz(meta(ex, S.a['flags'], 'and_')), not_(exists_(n, lambda k: not_(fl(k))))))
        P('count', eq(meta(ex, S.a['flags'], 'count'), cnt())); P('returns the count', eq(r, cnt())); ix = (ivar('ix:c', 0),)
    P('the flags are not changed', eq(S.cell('flags', ix), S.cell('flags', ix, S.t0)))
    ctx.stat(ex)
def ir_PTR():
    from vf import ir
    return ir.PTR
def isum1(n, f):
    k = bound_var(); return isum(k, n, f(k))
def query(ctx, mods, fn):
    """flags_or/and/count(2): the summary of a filled row, zero of an empty one"""
    two = fn.endswith('2'); which = {'or': 'or_', 'and': 'and_', 'count': 'count'}[fn.rstrip('2')[6:]]
    S = Session(mods, [Arr('flags', 'uc', 'n')] + [Int(d, 0, 1000000) for d in (['m', 'n'] if two else ['n'])]); ex = S.ex; F = ex.funcs.get(fn)
    if F is None or len(F.params) != len(S.args): raise Unsupported('parameters of %s changed' % fn)
    pre = andl(S.facts); v = meta(ex, S.a['flags'], which, pre, S.t0)
    r = ex.exec_function(F, S.args, pre); smp = sampler_for(S, Contract(fn, S.params))
    some = lt(ZERO, mul(S.a['n'], S.a['m'])) if two else lt(ZERO, S.a['n'])
    some = andl([lt(ZERO, S.a[d]) for d in (['m', 'n'] if two else ['n'])])
    def P(name, c, g): ctx.result('%s: %s' % (fn, name), prove.prove(c, and_(pre, g), S.facts, sampler=smp, seed=ctx.seed))
    P('the summary', eq(r, v) if which == 'count' else iff(nz(r), nz(v)), some); P('zero when there are no flags', eq0(r), not_(some)); ctx.stat(ex)
def simple():
    n = Int('n', 0, 1000000, small=(0, 3)); m = Int('m', 0, 1000000, small=(0, 3)); x = Int('x', 0, 127, small=(0, 5)); U8 = dict(lo=0, hi=127)
    A = consts(); nd = Int('n_derivs', 0, 1000000, small=(0, 3)); SH = [dict(n=a) for a in (0, 1, 3)]; SH2 = [dict(m=a, n=b) for a, b in ((0, 1), (1, 2), (3, 2))]
    i1 = lambda S, i: rng2(i, S.a['n']); i2 = lambda S, i, j: and_(rng2(i, S.a['m']), rng2(j, S.a['n']))
    K = Contract
    yield K('flags_init', [Arr('a', 'uc', 'n', **U8), n, x], [('a', 1, lambda S, i: (i1(S, i), S.a['x']))], shapes=SH)
    yield K('flags_copy', [Arr('b', 'uc', 'n', **U8), Arr('a', 'uc', 'n', **U8), n], [('b', 1, lambda S, i: (i1(S, i), S.v('a', i)))], shapes=SH)
    yield K('flags_init2', [Arr('a', 'uc', 'm', 'n', **U8), m, n, x], [('a', 2, lambda S, i, j: (i2(S, i, j), S.a['x']))], shapes=SH2)
    yield K('flags_copy2', [Arr('b', 'uc', 'm', 'n', **U8), Arr('a', 'uc', 'm', 'n', **U8), m, n], [('b', 2, lambda S, i, j: (i2(S, i, j), S.v('a', i, j)))], shapes=SH2)
    def merge(S, i):
        t = lambda nm: nz(S.v(nm, i))
        return rng2(i, S.a['n_derivs']), ite(t('derivs_s1'), ic(A['ADDING_S_S']), ite(t('derivs_sm'), ic(A['ADDING_U_S']), ic(A['ADDING_U_U'])))
    def req(S):
        k = bound_var(); return [('all', [k], or_(eq0(S.v('derivs_s1', k)), nz(S.v('derivs_sm', k))))]
    yield K('derivs_merge_s', [nd, Arr('derivs_s1', 'uc', 'n_derivs', **U8), Arr('derivs_sm', 'uc', 'n_derivs', **U8), Arr('derivs_s', 'uc', 'n_derivs', **U8)],
            [('derivs_s', 1, lambda S, i: (merge0(S, i, merge)))], contracts={'flags_fill_meta': lambda ex, g, a, I: app('count', (), 'i')}, shapes=[dict(n_derivs=a) for a in (0, 1, 3)])
    yield K('derivs_union_bitwise_or', [nd, Arr('derivs1', 'uc', 'n_derivs', lo=0, hi=15)], ret=lambda S: orbits(S, 'derivs1', (), S.a['n_derivs']), shapes=[dict(n_derivs=a) for a in (0, 1, 3)])
    nl = Int('n_layers', 0, 1000000, small=(0, 3)); SL = [dict(n_layers=a, n_derivs=b) for a, b in ((0, 1), (2, 0), (2, 3))]
    yield K('derivs_union_bitwise_or2', [nl, nd, Arr('derivs1', 'uc', 'n_layers', 'n_derivs', lo=0, hi=15), Arr('derivs2', 'uc', 'n_layers', **U8)],
            [('derivs2', 1, lambda S, i: (rng2(i, S.a['n_layers']), orbits(S, 'derivs1', (i,), S.a['n_derivs'])))], shapes=SL)
    yield K('derivs_union_logical_or2', [nl, nd, Arr('derivs1', 'uc', 'n_layers', 'n_derivs', lo=0, hi=15), Arr('derivs2', 'uc', 'n_layers', **U8)],
            [('derivs2', 1, lambda S, i: (rng2(i, S.a['n_layers']), app('flags_or', (i, S.a['n_derivs']), 'i', (0, 1))))], contracts={'flags_or': orcontract}, replay=False)
def orcontract(ex, g, a, I):
    p = a[0]
    if p.op != 'ptr' or len(p.a[1]) != 1 or p.a[2] is not ZERO: raise Unsupported('row of flags')
    return app('flags_or', (p.a[1][0], a[1]), 'i', (0, 1))
def merge0(S, i, f):
    # documented combinations only: a part above that varies with a stack below that does not cannot occur
    c, v = f(S, i); return and_(c, or_(eq0(S.v('derivs_s1', i)), nz(S.v('derivs_sm', i)))), v
def orbits(S, nm, pre, n):
    r = ZERO
    for b in range(4):
        r = add(r, ite(exists_(n, lambda k: bit(S.v(nm, *pre, k), b)), ic(1 << b), ZERO))
    return r

# ------------------------------------------------------------ which table is built from which
def wiring(ctx, mods, fn):
    """xrtm_update_varied_layers: every table, including the tables of the azimuth-dependent terms and the unions, is rebuilt from
    its own layer table, after the tables it is built from"""
    R = guard.Run(mods, fn); H, ex = R.H, R.ex; smp = iface.sampler(None, iface.Api(fn, []))
    ok = and_(R.pre, eq0(R.rv))
    T = lambda n: H.d.get(ex, 'derivs.' + n, time=H.t0)
    L = lambda: add(H.f('n_layers'), ONE)
    calls = R.calls
    def P(name, c, g=ok): ctx.result('%s: %s' % (fn, name), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    def occurs(name, args):
        """condition of a call with these arguments, and its position"""
        c = FALSE; pos = []
        for z, (nm, g, a) in enumerate(calls):
            if nm != name: continue
            m = g
            for k, w in args.items(): m = and_(m, peq(a[k], w) if w.s == 'p' else (eq(a[k], w) if a[k].s == 'i' else FALSE))
            if m is not FALSE: c = or_(c, m); pos.append(z)
        return c, pos
    if not any(nm.startswith('build_derivs') for nm, g, a in calls): raise Unsupported('no call of build_derivs_* recognised in ' + fn)
    done = {}
    def need(name, out, ins, cond=TRUE, extra=None, k=None):
        F = ex.funcs[name]; args = {}
        names = [p[0].lstrip('%') for p in F.params]
        outpos = names.index(k or ('derivs_' + out.split('_m')[0] if not out.startswith('adding') else 'derivs_' + out.replace('_m', '')))
        args[outpos] = T(out)
        for pn, t in ins.items(): args[names.index(pn)] = T(t)
        for pn, v in (extra or {}).items(): args[names.index(pn)] = v
        c, pos = occurs(name, args); P('%s is built from %s' % (out, ', '.join(ins.values()) or 'the inputs'), c, and_(ok, cond)); done[out] = pos
        # no other call writes this table
        for z, (nm, g, a) in enumerate(calls):
            if nm not in ex.funcs or not (nm.startswith('build_derivs') or nm.startswith('derivs_union')) or z in pos: continue
            last = outpos_of(ex, nm)
            if last is not None and last < len(a) and a[last].op == 'ptr': P('%s is not overwritten by another table' % out, not_(peq(a[last], T(out))), and_(ok, g)) if peq(a[last], T(out)) is not FALSE else None
        for t in ins.values():
            if pos and done.get(t): ctx.result('%s: %s after %s' % (fn, out, t), prove.Result(min(pos) > max(done[t]), 'order', 'built before the table it depends on'))
    for m in ('', '_m'):
        fl = [a[2] for nm, g, a in calls if nm == 'build_derivs_layers' and peq(a[1], T('layers' + m)) is TRUE]
        need('build_derivs_layers', 'layers' + m, {}, extra={'flag': fl[0] if fl else ZERO})
        for f in fl: P('layers%s: the surface is included %s' % (m, 'only for kernels with azimuthal terms' if m else 'always'), eq0(f) if m else nz(f))
        need('build_derivs_stacks', 'stacks' + m, {'derivs_layers': 'layers' + m})
        need('build_derivs_beam', 'beam' + m, {'derivs_layers': 'layers' + m}, H.opt('SOURCE_SOLAR'))
        need('build_derivs_thermal', 'thermal' + m, {'derivs_layers': 'layers' + m}, H.opt('SOURCE_THERMAL'))
        need('build_derivs_sources', 'sources' + m, {'derivs_beam': 'beam' + m, 'derivs_thermal': 'thermal' + m})
        for t in ('total', 'adding_down', 'adding_up'): need('build_derivs_' + t, t + m, {'derivs_layers': 'layers' + m, 'derivs_sources': 'sources' + m})
        RV = H.opt('REVERSE_DERIVS')
        for t, c in (('layers', TRUE), ('stacks', TRUE), ('sources', TRUE), ('beam', H.opt('SOURCE_SOLAR')), ('thermal', H.opt('SOURCE_THERMAL'))):
            need('derivs_union_logical_or2', t + m + '_union', {'derivs1': t + m}, and_(RV, c), extra={'n_layers': L(), 'n_derivs': H.f('n_derivs')}, k='derivs2')
        for t in ('adding_up', 'adding_down'):
            need('derivs_union_bitwise_or2', t + m + '_union', {'derivs1': t + m}, RV, extra={'n_layers': L(), 'n_derivs': H.f('n_derivs')}, k='derivs2')
    ctx.stat(ex)
def outpos_of(ex, nm):
    names = [p[0].lstrip('%') for p in ex.funcs[nm].params]
    if nm.startswith('derivs_union'): return names.index('derivs2') if 'derivs2' in names else None
    t = 'derivs_' + nm[len('build_derivs_'):]
    return names.index(t) if t in names else None

def run(ctx):
    iface.K(); iface.structs.layouts(); consts(); off()
    mods = ctx.load('src/xrtm_interface.c', 'src/xrtm_utility.c')
    items = [(fn, tab, mods, fn) for fn in TABLES] + [(f, fill, mods, f) for f in ('flags_fill_meta', 'flags_fill_meta2')] + [(f, query, mods, f) for f in ('flags_or', 'flags_and', 'flags_count', 'flags_or2', 'flags_and2', 'flags_count2')]
    items += [('xrtm_update_varied_layers', wiring, mods[:1] if False else mods, 'xrtm_update_varied_layers')] + [(c.fn, None, mods, c) for c in simple()]
    ctx.par(items, lambda c, it: c.check(it[3], mods=mods) if it[1] is None else safe(c, it[0], it[1], it[2], it[3]))
