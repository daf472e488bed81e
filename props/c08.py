"""C08: allocation and release of the memory owned by a handle.
Creation and destruction are each under contract against one table (the representation invariant used by every other contract of the
interface): which pointer of the handle owns a block of which dimensions under which condition on the configuration."""
import re
from vf import guard, prove, iface, handle, ir
from vf.guard import Run
from vf.handle import Handle
from vf.terms import *
from vf.sym import Fam, Unsupported
from props import api
from props.c19 import flat
FLOOR = 900
NAME = 'memory of a handle'
USEG = {'g': 'L', 'g0': 'L', 'g_l': 'L, D', 'g0_l': 'L, D', 'g_a': 'L', 'g0_a': 'L'}
ALIASED = ['utaus20'] + [v + '0' + sfx for v in ('ltau', 'omega', 'coef', 'g') for sfx in ('', '_l', '_a')]
FLAGS2 = re.compile(r'^derivs\.\w+$')

def owned():
    """field -> (condition, dimensions, family of allocation functions)"""
    out = {}
    t = dict(handle.DIMS)
    for n, d in USEG.items(): t[n] = ('USEG' + (' & CALC_DERIVS' if n.endswith('_l') else ' & REVERSE_DERIVS' if n.endswith('_a') else ''), [x.strip() for x in d.split(',')])
    for n, (c, d) in t.items():
        if n.startswith('kernel_aux.'): continue
        if n in ALIASED: c = c + ' & DELTA_M' if c else 'DELTA_M'
        out[n] = (c, d, 'flags' if n.startswith('derivs.') and not n.endswith('_union') else 'array')
    return out
class View(Handle):
    """the handle as a function leaves it"""
    def __init__(s, H, g): s.ex = H.ex; s.d = H.d; s.k = H.k; s.g = g
    def f(s, field, *ix): return s.d.get(s.ex, field, *ix, g=s.g)
    def cond(s, c): return cond(s, c, Handle.cond)
class Before(Handle):
    def __init__(s, H): s.ex = H.ex; s.d = H.d; s.k = H.k; s.t0 = H.t0
    def cond(s, c): return cond(s, c, Handle.cond)
def cond(s, c, base):
    ws = [x.strip() for x in c.split('&') if x.strip()]
    g = base(s, ' & '.join(w for w in ws if w != 'USEG'))
    if 'USEG' in ws: g = and_(g, s.sol('USE_G'))
    return g
SIZES = {'double': 8, 'int': 4, 'enum': 4, 'uchar': 1, 'unsigned char': 1, 'dcomplex': 16}
def elemsize(ty, rank):
    t = ty.strip()
    if t.endswith('*') and t.count('*') > rank or '(' in t: return 8
    b = t.replace('*', '').strip().split()[0]
    return SIZES.get(b) if t.count('*') == rank else 8

def create(ctx, mods):
    allocs = []
    def al(s, g, a):
        f = Fam('blk:%d' % len(allocs)); f.S = 1; allocs.append((s.calls[-1][0], list(a), g, f)); return ptr(f)
    res = {'jalloc_array%d' % n: al for n in range(1, 8)}; res['flags_alloc2'] = al
    R = Run(mods, 'xrtm_create_misc', opaque=2, wf=False, result=res); ex = R.ex
    ok = and_(R.pre, eq0(R.rv)); V = View(R.H, ok)
    T = owned(); vals = {}; holders = {k: [] for k in range(len(allocs))}
    for F in T:
        if F not in R.H.d.fl and F not in handle.DIMS: ctx.undecided('xrtm_create_misc: ' + F, 'no such field'); continue
        vals[F] = R.H.d.get(ex, F, g=ok); s = pp(vals[F])
        for k, x in enumerate(allocs):
            if re.search(r'&blk:%d\+0(?!\d)' % k, s): holders[k].append(F)
    def one(c, what):
        kind, F = what
        if kind == 'field':
            cd, dims, fam = T[F]; g = and_(ok, V.cond(cd)); n = len(dims); alt = FALSE; want = [V.dim(x) for x in dims]; ty = R.H.d.fl[F][1] if F in R.H.d.fl else '?'
            for k in [k for k in holders if F in holders[k]]:
                nm, a, cg, f = allocs[k]
                if nm == 'flags_alloc2':
                    if fam != 'flags': continue
                    got, sz = a[0:2], TRUE
                else:
                    if fam == 'flags' or nm != 'jalloc_array%d' % n: continue
                    got = a[1:1 + n]; es = elemsize(ty, n); sz = eq(a[1 + n], ic(es)) if es else TRUE
                alt = or_(alt, andl([cg, peq(vals[F], ptr(f)), sz] + [eq(x, y) for x, y in zip(got, want)]))
            c.result('xrtm_create_misc: %s owns a block of the documented size' % F, prove.prove(alt, g, R.facts + [g], seed=c.seed))
        elif kind == 'block':
            nm, a, cg, f = allocs[F]; alt = FALSE
            for x in holders[F]: alt = or_(alt, and_(V.cond(T[x][0]), peq(vals[x], ptr(f))))
            c.result('xrtm_create_misc: the block of %s %d is owned by a field' % (nm, F), prove.prove(alt, and_(ok, cg), R.facts, seed=c.seed))
            for i, x in enumerate(holders[F]):
                for y in holders[F][:i]:
                    both = andl([V.cond(T[x][0]), V.cond(T[y][0]), peq(vals[x], ptr(f)), peq(vals[y], ptr(f))])
                    c.result('xrtm_create_misc: %s and %s do not both own one block' % (x, y), prove.prove(not_(both), ok, R.facts, seed=c.seed))
    jobs = [('field', F) for F in vals] + [('block', k) for k in holders]
    ctx.par(jobs, one)
    # parts of the handle with their own creation functions
    EV = R.ex.events
    for n, cd, args in (('work_init', 'INTERNAL', lambda c: peq(c[0], ptr_add(R, 'work'))), ('save_tree_init', 'REVERSE_DERIVS', lambda c: peq(c[0], ptr_add(R, 'save_tree'))), ('brdf_aux_alloc', 'INTERNAL & KER', lambda c: andl([peq(c[0], ptr_add(R, 'kernel_aux')), eq(c[1], V.dim('(Q+U)')), eq(c[2], V.f('n_kernel_quad'))]))):
        g = V.cond(cd); ev = flat(EV, (n,))
        ctx.result('xrtm_create_misc: %s where it is needed' % n, prove.prove(R.called(n, args=args), and_(ok, g), R.facts, seed=ctx.seed))
        ctx.result('xrtm_create_misc: %s nowhere else' % n, prove.prove(not_(R.called(n)), and_(ok, not_(g)), R.facts, seed=ctx.seed))
        ctx.result('xrtm_create_misc: %s once' % n, prove.prove(not_(twice([e[1] for e in ev])), ok, R.facts, seed=ctx.seed))
        for e in ev:
            if e[0]: ctx.undecided('xrtm_create_misc: %s once' % n, 'called in a loop')
    g = V.cond('IADD & STACK_REUSE_ADDING'); z = V.f('stack_chain')
    ctx.result('xrtm_create_misc: no stack chain yet', prove.prove(peq(z, NULL), and_(ok, g), R.facts, seed=ctx.seed))
    ctx.result('xrtm_create_misc: no stacks yet', prove.prove(le(V.f('n_stacks'), ZERO), and_(ok, g), R.facts, seed=ctx.seed))
    ctx.result('xrtm_create_misc: inputs are awaited', prove.prove(not_(eq0(V.f('inputs_initialized'))), ok, R.facts, seed=ctx.seed))
def ptr_add(R, field): return R.ex.padd(R.a[0], ic(off(field)))
def off(field):
    t = _off.get(field)
    if t is None:
        from vf.structs import Struct
        fl = Struct('o', 'xrtm_data').fl
        t = _off[field] = fl[field][0] if field in fl else min(o for k, (o, _) in fl.items() if k.startswith(field + '.'))
    return t
_off = {}
def twice(gs):
    b = FALSE
    for i, x in enumerate(gs):
        for y in gs[:i]: b = or_(b, and_(x, y))
    return b

def freed(ctx, mods, fn, T, extra, pre=None, when=None, result=None):
    """every owned block is released exactly once, nothing else is released; T: field -> (condition of release, dimensions, family)"""
    R = Run(mods, fn, wf=False, opaque=False if result else 2, result=result, requires=(lambda R: pre(Before(R.H))) if pre else None); ex = R.ex; B = Before(R.H); ok = and_(R.pre, when(R) if when else eq0(R.rv))
    names = {}
    for n, _, _ in R.calls: names[n] = 1
    frees = [n for n in names if re.match(r'^free_array\d(_\w+)?$', n) or n in ('flags_free', 'flags_free2', 'free', 'free_array')]
    ev = flat(R.ex.events, frees); byf = {F: [] for F in T}; val = {F: B.f(F) for F in list(T) + list(extra)}
    fams = {v.a[0]: F for F, v in val.items() if v.op == 'ptr'}
    for k, (bi, g, a, note) in enumerate(ev):
        if bi: raise Unsupported('release inside a loop')
        p = a[0]; F = fams.get(p.a[0]) if p.op == 'ptr' else None
        if F and peq(p, val[F]) is not TRUE: F = None
        if F is None: ctx.violation('%s: release %d is of a block of the handle' % (fn, k), 'released: ' + pp(p)[:100]); continue
        if F in extra: extra[F].append((g, a)); continue
        byf[F].append((g, a, names_of(R.ex.events, frees, k)))
    def one(c, F):
        cd, dims, fam = T[F]; g = B.cond(cd); gs = [x[0] for x in byf[F]]; any_ = FALSE
        for x in gs: any_ = or_(any_, x)
        c.result('%s: %s is released' % (fn, F), prove.prove(any_, and_(ok, g), R.facts, seed=c.seed))
        c.result('%s: %s is released only where it was allocated' % (fn, F), prove.prove(g, and_(R.pre, any_), R.facts, seed=c.seed))
        if len(gs) > 1: c.result('%s: %s is released once' % (fn, F), prove.prove(not_(twice(gs)), R.pre, R.facts, seed=c.seed))
        for g_, a, n in byf[F]:
            m = re.match(r'^free_array(\d)', n)
            good = (n == 'flags_free2') if fam == 'flags' else bool(m) and int(m.group(1)) == len(dims)
            if good: c.ok('%s: %s is released as what it is' % (fn, F), 'call')
            else: c.violation('%s: %s is released as what it is' % (fn, F), 'released by %s' % n)
    ctx.par(list(T), one)
    return R, B, ok
def names_of(events, names, k):
    n = 0
    for e in events:
        if e[0] == 'call' and e[2] in names:
            if n == k: return e[2]
            n += 1
    raise Unsupported('event order')
def whole(ctx, R, B, ok, fn, n, cd, base, before=()):
    """the release function of a part of the handle is called once, exactly where the part was created"""
    g = B.cond(cd); ev = flat(R.ex.events, (n,))
    ctx.result('%s: %s where the part was created' % (fn, n), prove.prove(R.called(n, args=base), and_(ok, g), R.facts, seed=ctx.seed))
    ctx.result('%s: %s nowhere else' % (fn, n), prove.prove(not_(R.called(n)), and_(R.pre, not_(g)), R.facts, seed=ctx.seed))
    ctx.result('%s: %s once' % (fn, n), prove.prove(not_(twice([e[1] for e in ev])), R.pre, R.facts, seed=ctx.seed))
    for e in ev:
        if e[0]: ctx.undecided('%s: %s once' % (fn, n), 'called in a loop')
def order(ctx, R, fn, first, fields, B, what):
    """the call happens before the fields are released"""
    pos = [k for k, e in enumerate(R.ex.events) if e[0] == 'call' and e[2] == first]; fam = {B.f(F).a[0]: F for F in fields}
    for k, e in enumerate(R.ex.events):
        if e[0] == 'call' and 'free' in e[2] and e[2] != first and e[4] and e[4][0].op == 'ptr' and e[4][0].a[0] in fam:
            n = '%s: %s before %s is released' % (fn, what, fam[e[4][0].a[0]])
            (ctx.ok(n, 'order of calls') if pos and max(pos) < k else ctx.violation(n, 'released first'))
SETFLAGS = ['set_flags_g', 'set_flags_coef', 'set_flags_omega', 'set_flags_ltau', 'set_flags_kernel_ampfac', 'set_flags_kernel_params', 'set_flags_kernel_func']
def destroy(ctx, mods):
    T = owned(); T['stack_chain'] = ('IADD & STACK_REUSE_ADDING', ['X'], 'array')
    R, B, ok = freed(ctx, mods, 'xrtm_destroy', T, {})
    ctx.result('xrtm_destroy: always succeeds', prove.prove(eq0(R.rv), R.pre, R.facts, seed=ctx.seed))
    whole(ctx, R, B, ok, 'xrtm_destroy', 'work_free', 'INTERNAL', lambda c: peq(c[0], ptr_add(R, 'work')))
    whole(ctx, R, B, ok, 'xrtm_destroy', 'save_tree_free', 'REVERSE_DERIVS', lambda c: peq(c[0], ptr_add(R, 'save_tree')))
    whole(ctx, R, B, ok, 'xrtm_destroy', 'brdf_aux_free', 'INTERNAL & KER', lambda c: peq(c[0], ptr_add(R, 'kernel_aux')))
    fs = ['n_four', 'n_quad_v_x', 'n_derivs', 'n_layers', 'n_stacks', 'stack_chain', 'derivs.layers', 'derivs.stacks', 'derivs.adding_down']
    def sargs(c):
        out = []
        for x, F in zip(c, fs): out.append(peq(x, B.f(F)) if x.s == 'p' else eq(x, B.f(F)))
        return andl(out)
    whole(ctx, R, B, ok, 'xrtm_destroy', 'stack_chain_free', 'IADD & STACK_REUSE_ADDING', sargs)
    order(ctx, R, 'xrtm_destroy', 'stack_chain_free', ['stack_chain', 'derivs.layers', 'derivs.stacks', 'derivs.adding_down'], B, 'the stacks are released')
def inputs(ctx, mods):
    """the record of the inputs set so far is released once, when the last one has been set"""
    T = {F: v for F, v in owned().items() if F in SETFLAGS}
    for F in T: T[F] = (T[F][0].replace('INIT & ', '').replace('INIT', ''), T[F][1], T[F][2])
    from props.c05 import NP
    R, B, ok = freed(ctx, mods, 'check_inputs_initialized', T, {}, result=NP, pre=lambda B: [eq(B.f('inputs_initialized'), ONE), le(ZERO, B.f('n_kernels')), le(ONE, B.f('n_layers'))], when=lambda R: eq0(R.H.d.get(R.ex, 'inputs_initialized', g=R.pre)))
    anyfree = R.called('free_array1_uc', 'free_array2_uc', 'free_array1', 'free_array2', 'free')
    ctx.result('check_inputs_initialized: nothing is released while the record is needed', prove.prove(ok, and_(R.pre, anyfree), R.facts, seed=ctx.seed))
    for fn in ('solution_preprocess', 'xrtm_update_varied_layers'):
        R = Run(mods, fn, wf=True, opaque=2); a = R.called('check_inputs_initialized'); n = flat(R.ex.events, ('check_inputs_initialized',))
        ctx.result('%s: the record is checked only while it exists' % fn, prove.prove(not_(eq0(R.H.f('inputs_initialized'))), and_(R.pre, a), R.facts, seed=ctx.seed))
        ctx.result('%s: the record is checked once' % fn, prove.prove(not_(twice([e[1] for e in n])), R.pre, R.facts, seed=ctx.seed))
def iff(a, b): return and_(or_(not_(a), b), or_(a, not_(b)))
def heap(name, allocs):
    def h(s, g, a):
        f = Fam('%s:%d' % (name, len(allocs))); f.S = 1; allocs.append((g, a[0] if len(a) else None, f, list(a))); return ptr(f)
    return h
def flags(ctx, mods):
    """blocks of flags: a header before the first element, one block (or one for the rows and one for the elements)"""
    M = []; ms = lambda s, g, a: heap('m', M)(s, g, a)
    R = Run(mods, 'flags_alloc', wf=False, opaque=False, result={'malloc': ms}, requires=lambda R: [le(ZERO, R.a[0])])
    def P(n, c, g=TRUE): ctx.result(n, prove.prove(c, and_(R.pre, g), R.facts, seed=ctx.seed))
    n = R.a[0]; h = None
    for (g, sz, f, _) in M: P('flags_alloc: one block', g); P('flags_alloc: room for the header and the flags', le(add(n, ic(8)), sz)); P('flags_alloc: the flags follow the header', peq(R.rv, ptr(f, (), ic(8))))
    if len(M) != 1: ctx.violation('flags_alloc: one block', '%d blocks' % len(M))
    M2 = []; R = Run(mods, 'flags_alloc2', wf=False, opaque=False, result={'malloc': heap('m', M2)}, requires=lambda R: [le(ONE, R.a[0]), le(ZERO, R.a[1])])
    m, n = R.a[0], R.a[1]; ex = R.ex; ok = not_(peq(R.rv, NULL))
    if len(M2) != 2: ctx.violation('flags_alloc2: two blocks', '%d blocks' % len(M2)); return
    (g0, s0, f0, _), (g1, s1, f1, _) = M2
    P('flags_alloc2: the table of rows follows its header', peq(R.rv, ptr(f0, (), ic(8)))); P('flags_alloc2: room for the table', le(add(scale(8, m), ic(8)), s0))
    i = ivar('i'); gi = and_(le(ZERO, i), lt(i, m)); row = ex.load(ex.padd(R.rv, scale(8, i)), ir.PTR, gi)
    P('flags_alloc2: first row at the start of the elements', peq(ex.load(R.rv, ir.PTR, TRUE), ptr(f1, (), ic(8))))
    in_, off_ = psub(row, f1); j = ivar('j'); gj = and_(gi, and_(le(ZERO, j), lt(j, m)))
    P('flags_alloc2: every row is in the block', in_, gi)
    P('flags_alloc2: rows with their headers inside the block', and_(le(ic(8), off_), le(add(off_, n), s1)), gi)
    _, rj = psub(ex.load(ex.padd(R.rv, scale(8, j)), ir.PTR, gj), f1)
    P('flags_alloc2: rows do not overlap', le(add(add(off_, n), ic(8)), rj), and_(gj, lt(i, j)))
    R = Run(mods, 'flags_free', wf=False, opaque=False, result={'free': None}, over={0: lambda s: ptr(bytefam('b'), (), ic(8))})
    one_free(ctx, R, 'flags_free', [R.ex.padd(R.a[0], ic(-8))])
    def tab(s):
        f = Fam('rows'); f.S = 8; f.ctype = lambda r: 'uchar *'; return ptr(f, (), ic(8))
    R = Run(mods, 'flags_free2', wf=False, opaque=False, result={'free': None}, over={0: tab})
    r0 = R.ex.load(R.a[0], ir.PTR, TRUE, R.t0); one_free(ctx, R, 'flags_free2', [R.ex.padd(r0, ic(-8)), R.ex.padd(R.a[0], ic(-8))])
def bytefam(n): f = Fam(n); f.S = 1; return f
def psub(p, fam):
    """(condition, offset): when and where a pointer leads into the block"""
    if p.op == 'ptr': return (TRUE, p.a[2]) if p.a[0] is fam and not p.a[1] else (FALSE, ZERO)
    if p.op == 'ite':
        (c1, a), (c2, b) = psub(p.a[1], fam), psub(p.a[2], fam)
        return ite_(p.a[0], c1, c2), (b if c1 is FALSE else a if c2 is FALSE else ite(p.a[0], a, b))
    return FALSE, ZERO
def ite_(c, a, b): return or_(and_(c, a), and_(not_(c), b))
def one_free(ctx, R, fn, want):
    ev = flat(R.ex.events, ('free',))
    for k, w in enumerate(want):
        c = FALSE
        for bi, g, a, _ in ev: c = or_(c, and_(g, peq(a[0], w)))
        ctx.result('%s: block %d is released' % (fn, k), prove.prove(c, R.pre, R.facts, seed=ctx.seed))
    if len(ev) != len(want) or any(e[0] for e in ev): ctx.violation('%s: nothing else is released' % fn, '%d releases' % len(ev))
    else: ctx.ok('%s: nothing else is released' % fn, 'calls')
def brdf(ctx, mods):
    AUX = ['cos_theta', 'sin_theta', 'tan_theta', 'tan_theta2', 'cos_phi', 'sin_phi', 'sin_phi2']; from vf.structs import Struct
    st = {}
    def aux(s): st['S'] = S = Struct('aux', 'brdf_aux_data'); return S.base
    M = []; R = Run(mods, 'brdf_aux_alloc', wf=False, opaque=2, result={'alloc_array1_d': heap('b', M)}, over={0: aux}, requires=lambda R: [le(ZERO, R.a[1]), le(ZERO, R.a[2])])
    S = st['S']; ok = and_(R.pre, eq0(R.rv)); used = [FALSE] * len(M); vals = {F: S.get(R.ex, F, g=ok) for F in AUX}
    for F in AUX:
        n = add(R.a[1], ONE) if 'theta' in F else R.a[2]; c = FALSE
        for (g, sz, f, _) in M: c = or_(c, andl([g, peq(vals[F], ptr(f)), eq(sz, n)]))
        ctx.result('brdf_aux_alloc: %s owns a block of the documented size' % F, prove.prove(c, ok, R.facts, seed=ctx.seed))
    for k, (g, sz, f, _) in enumerate(M):
        hold = [F for F in AUX if re.search(r'&b:%d\+0(?!\d)' % k, pp(vals[F]))]; c = FALSE
        for F in hold: c = or_(c, peq(vals[F], ptr(f)))
        ctx.result('brdf_aux_alloc: block %d is owned by one field' % k, prove.prove(and_(c, not_(twice([peq(vals[F], ptr(f)) for F in hold]))), and_(ok, g), R.facts, seed=ctx.seed))
    R = Run(mods, 'brdf_aux_free', wf=False, opaque=2, over={0: aux}); S = st['S']; ev = flat(R.ex.events, ('free_array1_d', 'free_array1', 'free_array', 'free'))
    for F in AUX:
        v = S.get(R.ex, F, time=R.t0); m = [e for e in ev if e[2][0].op == 'ptr' and e[2][0].a[0] is v.a[0]]
        (ctx.ok if len(m) == 1 and not m[0][0] and m[0][1] is TRUE else ctx.violation)('brdf_aux_free: %s is released once' % F, 'calls: %d' % len(m))
    if len(ev) == len(AUX): ctx.ok('brdf_aux_free: nothing else is released', 'calls')
    else: ctx.violation('brdf_aux_free: nothing else is released', '%d releases' % len(ev))
def pair(ctx, mods, afn, ffn, tname, F, need):
    """creation and release of a part: every block owned by one field, every field released once (layer_add_aux_data)"""
    from vf.structs import Struct
    st = {}
    def aux(s): st['S'] = S = Struct('aux', tname); return S.base
    M = []
    def al(s, g, a): f = Fam('b:%d' % len(M)); f.S = 1; M.append((s.calls[-1][0], g, list(a), f)); return ptr(f)
    allocs = ['alloc_array%d%s' % (r, t) for r in range(1, 8) for t in ('_d', '_i', '_uc', '_dc', '')]
    R = Run(mods, afn, wf=False, opaque=2, result={n: al for n in allocs}, over={0: aux}); S = st['S']; ok = and_(R.pre, eq0(R.rv)); vals = {f: S.get(R.ex, f, g=ok) for f in F}
    for f, (rank, ty) in F.items():
        c = FALSE; want = need(R, f, rank)
        for nm, g, a, b in M:
            if nm == 'alloc_array%d_%s' % (rank, ty): c = or_(c, andl([g, peq(vals[f], ptr(b))] + [eq(x, y) for x, y in zip(a, want)]))
        ctx.result('%s: %s owns a block of the documented size' % (afn, f), prove.prove(c, ok, R.facts, seed=ctx.seed))
    for k, (nm, g, a, b) in enumerate(M):
        hold = [f for f in F if re.search(r'&b:%d\+0(?!\d)' % k, pp(vals[f]))]; c = FALSE
        for f in hold: c = or_(c, peq(vals[f], ptr(b)))
        ctx.result('%s: block %d is owned by one field' % (afn, k), prove.prove(and_(c, not_(twice([peq(vals[f], ptr(b)) for f in hold]))), and_(ok, g), R.facts, seed=ctx.seed))
    R = Run(mods, ffn, wf=False, opaque=2, over={0: aux}); S = st['S']; n = 0
    for f, (rank, ty) in F.items():
        v = S.get(R.ex, f, time=R.t0); m = [e for e in R.ex.events if e[0] == 'call' and e[4] and e[4][0].op == 'ptr' and peq(e[4][0], v) is TRUE]; n += len(m)
        good = len(m) == 1 and m[0][1] is TRUE and m[0][2].startswith('free_array%d' % rank)
        (ctx.ok if good else ctx.violation)('%s: %s is released once' % (ffn, f), 'calls: %s' % [e[2] for e in m])
    (ctx.ok if n == len(R.ex.events) else ctx.violation)('%s: nothing else is released' % ffn, '%d events' % len(R.ex.events))
AUXF = {'i13': (1, 'i'), 'i31': (1, 'i'), 'P13': (2, 'd'), 'P31': (2, 'd'), 'A13': (2, 'd'), 'A31': (2, 'd'), 'B13': (2, 'd'), 'B31': (2, 'd'), 'C13': (1, 'd'), 'C31': (1, 'd')}
# field -> (dimensions, only in a stack of one layer / of several layers, elements owned: dimensions, allocation)
_m = lambda *d: list(d)
STK = {}
for _f in ('R_p', 'T_p', 'R_m', 'T_m'): STK[_f] = (['F', 'N', 'N'], None, None); STK[_f + '_l'] = (['F', 'D'], 'one', ['N', 'N'])
for _f in ('S_p', 'S_m', 'Sl_p', 'Sl_m'): STK[_f] = (['F', 'N'], None, None); STK[_f + '_l'] = (['F', 'D'], None, ['N'])
STK['d'] = (['F'], 'several', 'aux')
def elem(S, ex, f, i, g=TRUE, time=None):
    off, b, n, arr = S.field(f)
    return ex.load(ex.padd(S.base_at(off), scale(S.size, i)), ir.PTR if n else ir.I32, g, time)
def stacks(ctx, _):
    from vf.structs import Struct
    from vf import build
    mods = ctx.load('src/xrtm_stacks.c', 'src/xrtm_adding.c', 'src/xrtm_utility.c'); NF = build.consts('sizeof(((stack_data *) 0)->new_) / sizeof(int)')
    need = lambda R, f, rank: [R.a[1]] * rank
    pair(ctx, mods, 'layer_add_aux_alloc', 'layer_add_aux_free', 'layer_add_aux_data', AUXF, need)
    st = {}
    def mk_(k): return lambda s: st.__setitem__(k, Struct(k, 'stack_data')) or st[k].base
    # --- release
    ovr = {5: mk_('stk'), 6: lambda s: ptr(Fam('dl')), 7: lambda s: ptr(Fam('ds')), 8: lambda s: ptr(Fam('dd')), 0: ivar('p0')}
    R = Run(mods, 'stack_chain_free', wf=False, opaque=2, over=ovr, requires=lambda s: [le(ONE, s.a[0]), le(ZERO, s.a[2]), le(ONE, s.a[3])]); S = st['stk']; ex = R.ex
    fr = sorted({n for n, _, _ in R.calls if n.startswith('free_array') or n == 'layer_add_aux_free' or n == 'free'}); ev = flat(ex.events, fr); order = [e for e in walk_names(ex.events, fr)]
    i, j, k = ivar('i'), ivar('j'), ivar('k'); n4, nd, nl, ns = R.a[0], R.a[2], R.a[3], R.a[4]
    gi = and_(le(ZERO, i), lt(i, ns)); gj = and_(le(ZERO, j), lt(j, n4)); gk = and_(le(ZERO, k), lt(k, nd)); used = set()
    ok = eq0(R.rv); here = and_(gi, not_(eq0(elem(S, ex, 'allocated', i, time=R.t0))))
    def check(label, target, binds, want, rank, name=None):
        """the releases whose argument is the target, with the loops instantiated"""
        gs = []
        for q, (bi, g, a, _) in enumerate(ev):
            if len(bi) != len(binds): continue
            m = {b: v for (b, h), v in zip(bi, binds)}; a0 = subst(a[0], m)
            if a0.op == 'ptr' and peq(a0, target) is TRUE:
                gg = g
                for b, h in bi: gg = and_(gg, lt(b, h))
                gs.append(subst(gg, m)); used.add(q)
                good = order[q] == name if name else order[q].startswith('free_array%d' % rank)
                (ctx.ok if good else ctx.violation)('stack_chain_free: %s is released as what it is' % label, order[q])
        any_ = FALSE
        for x in gs: any_ = or_(any_, x)
        rng = gi
        for b, g in ((j, gj), (k, gk)):
            if b in binds: rng = and_(rng, g)
        ctx.result('stack_chain_free: %s is released' % label, prove.prove(any_, andl([want, rng, ok]), R.facts, seed=ctx.seed))
        ctx.result('stack_chain_free: %s is released only if it is held' % label, prove.prove(want, and_(any_, rng), R.facts, seed=ctx.seed))
        if len(gs) > 1: ctx.result('stack_chain_free: %s is released once' % label, prove.prove(not_(twice(gs)), rng, R.facts, seed=ctx.seed))
    single = lt(i, nl)
    for f, (dims, only, inner) in STK.items():
        w = here if only is None else and_(here, single if only == 'one' else not_(single)); v = elem(S, ex, f, i, time=R.t0)
        check(f, v, [i], w, len(dims))
        if inner == 'aux': check(f + '[j]', ex.padd(v, scale(sizeof('layer_add_aux_data'), j)), [i, j], w, 0, 'layer_add_aux_free')
        elif inner: check(f + '[j][k]', ex.load(ex.padd(ex.load(ex.padd(v, scale(8, j)), ir.PTR, TRUE, R.t0), scale(8, k)), ir.PTR, TRUE, R.t0), [i, j, k], w, len(inner))
    for q in range(len(ev)):
        if q not in used: ctx.violation('stack_chain_free: nothing else is released', 'released: ' + pp(ev[q][2][0])[:100])
    # --- acquisition
    tabs = []
    def al(s, g, a): f = Fam('blk_%d' % len(tabs)); s.note.append(len(tabs)); tabs.append((s.calls[-1][0], f, list(s.ex.kstack))); return ptr(f, tuple(s.ex.kstack))
    res = {'jalloc_array%d' % n: al for n in range(1, 8)}; res['layer_add_aux_alloc'] = lambda s, g, a: ZERO; res['stack_chain_find'] = lambda s, g, a: app('found', tuple(s.ex.kstack), 'i')
    ovr = {5: mk_('old'), 7: mk_('new'), 8: lambda s: ptr(Fam('dl')), 9: lambda s: ptr(Fam('ds')), 10: lambda s: ptr(Fam('dd')), 0: ivar('p0')}
    R = Run(mods, 'stack_chain_alloc', wf=False, opaque=2, over=ovr, result=res, requires=lambda s: [le(ONE, s.a[0]), le(s.a[0], ic(NF)), le(ZERO, s.a[2]), le(ONE, s.a[3]), le(s.a[3], s.a[6])]); S, O, ex = st['new'], st['old'], R.ex
    n4, nq, nd, nl, ns = R.a[0], R.a[1], R.a[2], R.a[3], R.a[6]; gi = and_(le(ZERO, i), lt(i, ns)); gj = and_(le(ZERO, j), lt(j, n4)); gk = and_(le(ZERO, k), lt(k, nd)); ok = and_(R.pre, eq0(R.rv)); single = lt(i, nl)
    def P(n, c, g=TRUE): ctx.result('stack_chain_alloc: ' + n, prove.prove(c, and_(ok, g), R.facts, seed=ctx.seed))
    fi = app('found', (i,), 'i'); re_ = le(ZERO, fi); dimv = {'F': n4, 'N': nq, 'D': nd}
    found = flat(ex.events, ('stack_chain_find',))
    if len(found) != 1 or len(found[0][0]) != 1: ctx.undecided('stack_chain_alloc: search for a stack to take over', '%d searches' % len(found)); return
    fa = [subst(x, {found[0][0][0][0]: i}) for x in found[0][2]]; live = [(note[0], bi, a) for bi, g, a, note in flat(ex.events, list(res)[:7])]
    P('searches the old chain for the same layers', andl([eq(fa[0], R.a[4]), peq(fa[1], O.base), eq(fa[2], elem(S, ex, 'i1', i, time=R.t0)), eq(fa[3], elem(S, ex, 'i2', i, time=R.t0))]), gi)
    P('a stack holds its blocks', not_(eq0(elem(S, ex, 'allocated', i, g=and_(ok, gi)))), gi)
    kk = ivar('m'); taken = exists_(ns, lambda x: eq(app('found', (x,), 'i'), kk)); was = elem(O, ex, 'allocated', kk, time=R.t0); now = elem(O, ex, 'allocated', kk, g=ok)
    P('a stack of the old chain that was taken over no longer holds its blocks', eq0(elem(O, ex, 'allocated', fi, g=andl([ok, gi, re_]))), and_(gi, re_))
    P('the others keep theirs', eq(now, was), and_(le(ZERO, kk), not_(taken)))
    held = []
    def blocks(label, v, dims, own, es):
        """the value is a block of these dimensions that no other field holds"""
        c = FALSE; want = [dimv[x] for x in dims]
        for q, bi, a in live:
            nm, f, _ = tabs[q]; ks = [b for b, h in bi]
            if nm != 'jalloc_array%d' % len(dims) or not re.search(r'&blk_%d\D' % q, pp(v)) or len(ks) > len(own): continue
            m = dict(zip(ks, own)); a_ = [subst(x, m) for x in a]
            c = or_(c, andl([peq(v, ptr(f, tuple(own[:len(ks)])))] + [eq(x, y) for x, y in zip(a_[1:], want)] + [eq(a_[1 + len(dims)], ic(es))])); held.append((q, label))
        return c
    for f, (dims, only, inner) in STK.items():
        w = gi if only is None else and_(gi, single if only == 'one' else not_(single)); g1, g2 = and_(w, re_), and_(w, not_(re_))
        P('%s is taken over from the old stack' % f, peq(elem(S, ex, f, i, g=and_(ok, g1)), elem(O, ex, f, fi, time=R.t0)), g1)
        v = elem(S, ex, f, i, g=and_(ok, g2)); es = 8 if inner != 'aux' else sizeof('layer_add_aux_data')
        P('%s of a new stack owns a block of the documented size' % f, blocks(f, v, dims, [i], es), g2)
        if inner and inner != 'aux':
            g3 = andl([g2, gj, gk]); x = ex.load(ex.padd(ex.load(ex.padd(v, scale(8, j)), ir.PTR, and_(ok, g3)), scale(8, k)), ir.PTR, and_(ok, g3))
            P('%s[j][k] of a new stack owns a block of the documented size' % f, blocks(f + '[j][k]', x, inner, [i, j, k], 8), g3)
        elif inner:
            al_ = [e for e in flat(ex.events, ('layer_add_aux_alloc',))]; c = FALSE
            for bi, g, a, _ in al_:
                if len(bi) != 2: continue
                m = {b: y for (b, h), y in zip(bi, [i, j])}; c = or_(c, andl([subst(g, m), peq(subst(a[0], m), ex.padd(elem(S, ex, f, i, g=and_(ok, g2)), scale(es, j))), eq(subst(a[1], m), nq)]))
            P('%s[j] of a new stack is set up' % f, c, and_(g2, gj))
    for q, _, _ in live:
        hs = [l for z, l in held if z == q]
        (ctx.ok if len(hs) == 1 else ctx.violation)('stack_chain_alloc: the blocks of allocation %d are owned by one field' % q, 'held by %s' % hs)
    # --- search
    R = Run(mods, 'stack_chain_find', wf=False, opaque=False, over={1: mk_('stk')}, requires=lambda s: [le(ZERO, s.a[0])]); S, ex = st['stk'], R.ex; n = R.a[0]
    same = lambda x: and_(eq(elem(S, ex, 'i1', x, time=R.t0), R.a[2]), eq(elem(S, ex, 'i2', x, time=R.t0), R.a[3]))
    def P(n_, c, g=TRUE): ctx.result('stack_chain_find: ' + n_, prove.prove(c, and_(R.pre, g), R.facts, seed=ctx.seed))
    P('a stack of the chain or none', and_(le(ic(-1), R.rv), lt(R.rv, n))); P('a stack of exactly these layers', same(R.rv), le(ZERO, R.rv)); P('none only if there is none', not_(same(i)), andl([le(ZERO, i), lt(i, n), lt(R.rv, ZERO)]))
def exists_(n, p):
    v = bound_var(); return exists(v, n, p(v))
def sizeof(t):
    from vf.structs import size_of
    return size_of(t)
def walk_names(events, names):
    for e in events:
        if e[0] == 'call' and e[2] in names: yield e[2]
        elif e[0] == 'loop': yield from walk_names([e[3]] if e[3] and e[3][0] in ('call', 'loop') else e[3], names)
PARTS = [('creation', create), ('destruction', destroy), ('record of inputs', inputs), ('flags', flags), ('kernels', brdf), ('stacks', stacks)]
def run(ctx):
    iface.K(); from vf import structs; structs.layouts()
    mods = ctx.load(*api.SRC)
    for n, f in PARTS:
        try: f(ctx, mods)
        except Unsupported as e: ctx.undecided(n, str(e)[:300])
    ctx.run_native('C08', NAME)
