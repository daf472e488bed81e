"""C10: multi-dimensional arrays (misc/gutil_alloc.c, misc/galloc.h).
The recursive functions are under contract, one obligation set for every number of dimensions (up to MAX_DIMENS) and level, for all extents;
recursive calls are replaced by the contract.  The typed functions generated from galloc.h are checked for every element type."""
import os, re
from vf import guard, prove, ir, solve, build, contract
from vf.guard import Run
from vf.sym import Fam, Unsupported
from vf.terms import *
from props.c19 import flat
FLOOR = 500
NAME = 'arrays'
MAXR = 8
TYPES = {'uc': 1, 'c': 1, 'us': 2, 's': 2, 'ui': 4, 'i': 4, 'ul': 8, 'l': 8, 'f': 4, 'd': 8, 'fc': 8, 'dc': 16}

def vec(name, size=8):
    """an array of integers or pointers"""
    f = Fam(name); f.S = size; f.ctype = lambda r: 'v'; return ptr(f)
def ptab(name): f = Fam(name); f.S = 8; f.ctype = lambda r: '*'; return ptr(f)
def i64(ex, p, k, g=TRUE, time=None): return ex.load(ex.padd(p, scale(8, k)), ir.I64, g, time)
def lp(ex, p, k, g=TRUE, time=None): return ex.load(ex.padd(p, scale(8, k)), ir.PTR, g, time)
def prod(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r
class Job:
    def __init__(s, ctx, mods, fn, label, over, result=None, facts=None, inline=(), rec=False):
        s.ctx, s.fn, s.label = ctx, fn, label
        def req(R):
            s.dim = [i64(R.ex, R.a[s.dimpos], ic(q), time=R.t0) for q in range(MAXR)] if s.dimpos is not None else []
            return [le(ZERO, d) for d in s.dim] + (facts(R, s) if facts else [])
        s.dimpos = over.pop('dimen', None)
        if s.dimpos is not None: over[s.dimpos] = lambda R: vec('dimen')
        s.R = Run(mods, fn, over=over, result=result or {}, wf=False, requires=req, opaque=False, inline=inline, rec=rec)
        s.ex = s.R.ex; s.a = s.R.a; s.rv = s.R.rv
    def P(s, n, c, g=TRUE): s.ctx.result('%s%s: %s' % (s.fn, s.label, n), prove.prove(c, g, s.R.facts, seed=s.ctx.seed))
    def EQ(s, n, a, b, g=TRUE): s.ctx.result('%s%s: %s' % (s.fn, s.label, n), prove.prove_eq(a, b, g, s.R.facts, s.ctx.seed))
    def calls(s, *names): return flat(s.ex.events, names)
    def unchanged(s, what, p):
        if p.a[0].log or any(c.log for c in p.a[0].children.values()): s.ctx.violation('%s%s: %s not modified' % (s.fn, s.label, what), 'write to ' + what)
        else: s.ctx.ok('%s%s: %s not modified' % (s.fn, s.label, what), 'frame')
def length(dim, r, size): return add(scale(8, sum_([prod(dim[:q + 1]) for q in range(r - 1)])), mul(prod(dim[:r]), size))
def sum_(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r

def mem_length(ctx, mods, r):
    J = Job(ctx, mods, 'array_mem_length', ' [rank %d]' % r, {0: ic(r), 'dimen': 1})
    J.EQ('index tables and elements', J.rv, length(J.dim, r, J.a[2])); J.unchanged('dimen', J.a[1])
def init(ctx, mods, r):
    n = lambda s: s.a[3]
    J = Job(ctx, mods, 'ptr_array_init', ' [rank %d]' % r, {0: lambda s: ptab('a'), 1: ic(r), 'dimen': 2}, {'ptr_array_init': lambda s, g, a: a[0]}, lambda R, s: [le(ZERO, R.a[3])], rec=True)
    a = J.a[0]; nx = J.ex.padd(a, scale(8, J.a[3]))
    J.P('returns the table', peq(J.rv, a))
    if r == 0: J.unchanged('the elements', a); return
    some = lt(ZERO, J.a[3])
    J.P('the table leads to the next table', peq(lp(J.ex, a, ZERO, some), nx), some)
    k = ivar('k'); out = or_(not_(some), not_(eq(k, ZERO)))
    J.P('nothing else is written', peq(lp(J.ex, a, k, out), lp(J.ex, a, k, out, J.R.t0)), out)
    J.P('the next table is set up', J.R.called('ptr_array_init', args=lambda c: andl([peq(c[0], nx), eq(c[1], ic(r - 1)), peq(c[2], J.ex.padd(J.a[2], ic(8))), eq(c[3], mul(J.a[3], J.dim[0]))])), some)
def init_mem(ctx, mods, r):
    J = Job(ctx, mods, 'from_mem_ptr_array', ' [rank %d]' % r, {0: lambda s: ptab('a'), 1: lambda s: vec('elements', 1), 2: ic(r), 'dimen': 3}, {'from_mem_ptr_array': lambda s, g, a: a[0]}, lambda R, s: [le(ZERO, R.a[4])], rec=True)
    a = J.a[0]; nx = J.ex.padd(a, scale(8, J.a[4])); some = lt(ZERO, J.a[4])
    J.P('returns the table', peq(J.rv, a))
    k = ivar('k'); out = or_(not_(some), not_(eq(k, ZERO)))
    J.P('nothing else is written', peq(lp(J.ex, a, k, out), lp(J.ex, a, k, out, J.R.t0)), out)
    J.P('the table leads to the next', peq(lp(J.ex, a, ZERO, some), J.a[1] if r == 1 else nx), some)
    if r > 1: J.P('the next table is set up', J.R.called('from_mem_ptr_array', args=lambda c: andl([peq(c[0], nx), peq(c[1], J.a[1]), eq(c[2], ic(r - 1)), peq(c[3], J.ex.padd(J.a[3], ic(8))), eq(c[4], mul(J.a[4], J.dim[0]))])), some)
def rowmajor(ix, dim, upto):
    """sum of index[j] * product of the extents after j (up to and without upto)"""
    return sum_([mul(ix[j], prod(dim[j + 1:upto])) for j in range(len(ix))])
def assign(ctx, mods, r, dpt):
    base = {}
    J = Job(ctx, mods, 'ptr_array_assign', ' [rank %d, level %d]' % (r, dpt), {0: lambda s: ptab('a0'), 1: lambda s: ptab('a'), 2: ic(r), 'dimen': 3, 5: lambda s: vec('index'), 6: ic(dpt)}, {'ptr_array_assign': lambda s, g, a: s.note.append([i64(s.ex, a[5], ic(q)) for q in range(dpt + 1)])}, lambda R, s: [le(ONE, R.a[4])], rec=True)
    ex, a = J.ex, J.a; ix = [i64(ex, a[5], ic(q), time=J.R.t0) for q in range(dpt)]
    b0 = lp(ex, a[0], ZERO, time=J.R.t0); last = dpt == r - 2; n = J.dim[dpt]
    at = lambda i: mul(ic(8) if not last else a[4], mul(add(mul(rowmajor(ix, J.dim, dpt), n) if dpt else ZERO, i), J.dim[dpt + 1]))
    i = ivar('i'); g = and_(le(ZERO, i), lt(i, n))
    J.P('entry i leads to its row', peq(lp(ex, a[1], i, g), ex.padd(b0, at(i))), g)
    J.P('no entry outside the extent is written', peq(lp(ex, a[1], i, not_(g)), lp(ex, a[1], i, not_(g), J.R.t0)), not_(g))
    J.unchanged('dimen', a[3]); J.unchanged('the first table of the level', a[0])
    J.EQ('the first entry of a level keeps its value', at(i), ZERO, and_(g, eq0(add(mul(rowmajor(ix, J.dim, dpt), n) if dpt else ZERO, i))))
    for q in range(dpt): J.EQ('index %d unchanged' % q, i64(ex, a[5], ic(q)), ix[q])
    cs = J.calls('ptr_array_assign')
    if last:
        if cs: ctx.violation('ptr_array_assign [rank %d, level %d]: last level' % (r, dpt), 'recursive call')
        return
    if len(cs) != 1 or len(cs[0][0]) != 1: J.P('one recursive call in one loop', FALSE if not cs else None or FALSE) if not cs else ctx.undecided('ptr_array_assign', 'shape of the recursion'); return
    (k, hi), = cs[0][0]; gg = andl([cs[0][1], le(ZERO, k), lt(k, hi)]); c = cs[0][2]; note = cs[0][3][0]
    J.P('every row is set up', andl([cs[0][1], eq(hi, n)]), and_(le(ZERO, k), lt(k, n)))
    J.P('with the tables of the next level', andl([peq(c[0], b0), peq(c[1], ex.padd(b0, at(k)))]), gg)
    J.P('with the same array', andl([eq(c[2], a[2]), peq(c[3], a[3]), eq(c[4], a[4]), peq(c[5], a[5]), eq(c[6], ic(dpt + 1))] + [eq(x, y) for x, y in zip(note, ix + [k])]), gg)
def lemma(ctx, mods, r):
    """the tables of the levels follow one another, the elements follow the last, and level D ends where level D+1 begins"""
    d = [ivar('d%d' % q) for q in range(r)]; sz = ivar('size'); start = ZERO
    for q in range(r - 1):
        # ptr_array_init is entered with length = product of the extents before, at the start of the level
        start = add(start, scale(8, prod(d[:q + 1])))
    ctx.result('lemma [rank %d]: tables and elements fill the block exactly' % r, prove.prove_eq(add(start, mul(prod(d), sz)), length(d, r, sz), TRUE, [], ctx.seed))
    ix = [ivar('i%d' % q) for q in range(r)]; rm = ix[0]
    for q in range(1, r): rm = add(mul(rm, d[q]), ix[q])          # the row of level q, entry i_q
    ctx.result('lemma [rank %d]: following the tables gives the row-major position' % r, prove.prove_eq(rm, rowmajor(ix, d, r), TRUE, [], ctx.seed))

def top(ctx, mods, fn, r):
    blk = lambda s: s.blk
    lab = ' [rank %d]' % r; al = lambda nm: {nm: lambda s, g, a: block(s, nm)}
    def block(s, nm): 
        if not hasattr(s, 'blk'): s.blk = ptr(Fam('block')); s.blk.a[0].nullable = False
        return s.blk
    null = lambda nm: {nm: lambda s, g, a: NULL}
    idv = {'array_mem_length': lambda s, g, a: app('mem_length', (a[0], a[2]), 'i') if True else None}
    if fn in ('ptr_array_alloc', 'ptr_array_realloc'):
        o = 1 if fn == 'ptr_array_realloc' else 0; m = 'realloc' if o else 'malloc'
        over = {o: ic(r), 'dimen': o + 1}
        if o: over[0] = lambda s: ptab('old')
        def al_(s, g, a): return block(s, m)
        J = Job(ctx, mods, fn, lab, dict(over), {**idv, m: al_, 'ptr_array_init': lambda s, g, a: a[0]})
        L = app('mem_length', (ic(r), J.a[o + 2]), 'i')
        J.P('one block of the full length', J.R.called(m, args=lambda c: eq(c[-1], L) if not o else and_(peq(c[0], J.a[0]), eq(c[-1], L))))
        J.P('length of the right extents', J.R.called('array_mem_length', args=lambda c: peq(c[1], J.a[o + 1])))
        J.P('tables set up', J.R.called('ptr_array_init', args=lambda c: andl([peq(c[0], J.R.blk), eq(c[1], ic(r - 1)), peq(c[2], J.ex.padd(J.a[o + 1], ic(8))), eq(c[3], J.dim[0])])))
        J.P('the block is returned', peq(J.rv, J.R.blk))
        J = Job(ctx, mods, fn, lab + ' out of memory', dict(over), {**idv, **null(m), 'ptr_array_init': lambda s, g, a: a[0]})
        J.P('NULL', peq(J.rv, NULL)); J.P('nothing set up', not_(J.R.called('ptr_array_init')))
    elif fn == 'ptr_array_from_mem':
        for flag in (0, 1):
            over = {0: lambda s: vec('elements', 1), 1: ic(r), 'dimen': 2, 4: ic(flag)}; ml = app('mem_length', (ic(r), ZERO), 'i')
            J = Job(ctx, mods, fn, lab + ' flag %d' % flag, dict(over), {**idv, 'malloc': lambda s, g, a: block(s, 'malloc'), 'from_mem_ptr_array': lambda s, g, a: a[0]})
            e = J.a[0]; none = eq0(ml)
            J.P('no tables: the elements themselves', peq(J.rv, e), none); J.P('no tables: nothing set up', not_(J.R.called('from_mem_ptr_array')), none)
            t = J.R.blk if flag else e; el = e if flag else J.ex.padd(e, ml)
            J.P('tables set up in front of the elements', J.R.called('from_mem_ptr_array', args=lambda c: andl([peq(c[0], t), peq(c[1], el), eq(c[2], ic(r - 1)), peq(c[3], J.ex.padd(J.a[2], ic(8))), eq(c[4], J.dim[0])])), not_(none))
            J.P('the first table is returned', peq(J.rv, t), not_(none))
            if flag: J.P('room for the tables', J.R.called('malloc', args=lambda c: eq(c[0], ml)), not_(none))
    elif fn in ('alloc_array', 'realloc_array', 'array_from_mem'):
        o = 0 if fn == 'alloc_array' else 1; sub = {'alloc_array': 'ptr_array_alloc', 'realloc_array': 'ptr_array_realloc', 'array_from_mem': 'ptr_array_from_mem'}[fn]
        over = {o: ic(r), 'dimen': o + 1}
        if o: over[0] = lambda s: ptab('old')
        J = Job(ctx, mods, fn, lab, dict(over), {sub: lambda s, g, a: block(s, sub), 'ptr_array_assign': None})
        a = J.a; dm = a[o + 1]; size = a[o + 2]
        want = {'alloc_array': lambda c: andl([eq(c[0], ic(r)), peq(c[1], dm), eq(c[2], size)]), 'realloc_array': lambda c: andl([peq(c[0], a[0]), eq(c[1], ic(r)), peq(c[2], dm), eq(c[3], size)]), 'array_from_mem': lambda c: andl([peq(c[0], a[0]), eq(c[1], ic(r)), peq(c[2], dm), eq(c[4], a[4])])}[fn]
        J.P('block', J.R.called(sub, args=want)); J.P('returns it', peq(J.rv, J.R.blk))
        asg = J.R.called('ptr_array_assign', args=lambda c: andl([peq(c[0], J.R.blk), peq(c[1], J.R.blk), eq(c[2], ic(r)), peq(c[3], dm), eq(c[4], size), eq(c[6], ZERO)]))
        if r > 1:
            J.P('index tables filled', asg)
            room = [c[2][5] for c in J.R.calls if c[0] == 'ptr_array_assign']
            for p in room: 
                sz = getattr(p.a[0], 'size', None) if p.op == 'ptr' else None
                if sz is not None: J.P('room for the indices', le(ic(8 * (r - 2)), sz if isinstance(sz, T) else ic(sz)))
        else: J.P('no index tables', not_(J.R.called('ptr_array_assign')))
        if o and r > 1:
            J = Job(ctx, mods, fn, lab + ' in place', dict(over), {sub: lambda s, g, c: c[0], 'ptr_array_assign': None}); b = J.a[0]
            J.P('index tables filled', J.R.called('ptr_array_assign', args=lambda c: andl([peq(c[0], b), peq(c[1], b), eq(c[2], ic(r)), peq(c[3], J.a[o + 1]), eq(c[4], J.a[o + 2]), eq(c[6], ZERO)]))); J.P('returns it', peq(J.rv, b))
        J = Job(ctx, mods, fn, lab + ' out of memory', dict(over), {sub: NULL, 'ptr_array_assign': None})
        J.P('NULL', peq(J.rv, NULL)); J.P('nothing filled', not_(J.R.called('ptr_array_assign')))
    elif fn == 'free_array':
        J = Job(ctx, mods, fn, lab, {0: lambda s: ptab('a'), 1: ic(r)}, {'free': None}, inline=('ptr_array_free',))
        fr = [c for c in J.R.calls if c[0] == 'free'] + [e for e in J.ex.events if e[0] == 'free']
        J.P('freed exactly once', TRUE if len(fr) == 1 and fr[0][1] is not FALSE else FALSE)
        J.P('the block itself', and_(fr[0][1], peq(fr[0][2][0] if type(fr[0][2]) is tuple or type(fr[0][2]) is list else fr[0][2], J.a[0])) if fr else FALSE)
    elif fn == 'copy_array':
        def lev(name):
            f = Fam(name); x = f
            for q in range(r): x.S = 8 if q < r - 1 else 1; x.ctype = (lambda z: '*') if q < r - 1 else (lambda z: 'v'); x = x.child(0) if q < r - 1 else x
            return ptr(f)
        J = Job(ctx, mods, fn, lab, {0: lambda s: lev('a2'), 1: lambda s: lev('a1'), 2: ic(r), 'dimen': 3}, {'memcpy': None, 'llvm.memcpy.p0.p0.i64': None}, lambda R, s: [le(ONE, R.a[4])])
        def first(p):
            for q in range(r - 1): p = J.ex.load(p, ir.PTR, TRUE, J.R.t0)
            return p
        some = lt(ZERO, prod(J.dim[:r])); n = mul(prod(J.dim[:r]), J.a[4])
        mc = [c for c in J.R.calls if 'memcpy' in c[0]]
        J.P('the elements, and all of them', orl([andl([c[1], peq(c[2][0], first(J.a[0])), peq(c[2][1], first(J.a[1])), eq(c[2][2], n)]) for c in mc]), some)
        J.P('at most one copy', TRUE if len(mc) <= 1 else FALSE)
    elif fn == 'dup_array':
        J = Job(ctx, mods, fn, lab, {0: lambda s: ptab('a1'), 1: ic(r), 'dimen': 2}, {'alloc_array': lambda s, g, a: block(s, 'alloc'), 'ptr_array_alloc': lambda s, g, a: s.__dict__.setdefault('raw', ptr(Fam('raw'))), 'copy_array': None})
        J.P('an array of the same extents', J.R.called('alloc_array', args=lambda c: andl([eq(c[0], ic(r)), peq(c[1], J.a[2]), eq(c[2], J.a[3])])))
        b = getattr(J.R, 'blk', None)
        if b is not None:
            J.P('copied', J.R.called('copy_array', args=lambda c: andl([peq(c[0], b), peq(c[1], J.a[0]), eq(c[2], ic(r)), peq(c[3], J.a[2]), eq(c[4], J.a[3])])))
            J.P('returned', peq(J.rv, b))

def wrapper(ctx, mods, fn, gen, r, size, extra):
    """a function of fixed rank forwards its extents in order, and the size of its elements"""
    F = [f for m in mods for f in m.funcs.values() if f.name.lstrip('@') == fn]
    if not F: ctx.undecided(fn, 'no such function'); return
    res = ivar('result') if gen == 'array_mem_length' else None
    pos = {'alloc_array': 1, 'array_mem_length': 1, 'realloc_array': 2, 'array_from_mem': 2, 'free_array': None, 'copy_array': 3, 'dup_array': 2}[gen]
    lead = {'alloc_array': 0, 'array_mem_length': 0, 'realloc_array': 1, 'array_from_mem': 1, 'free_array': 1, 'copy_array': 2, 'dup_array': 1}[gen]
    out = ptr(Fam('result'))
    def h(s, g, a):
        if pos is not None: s.note.append([i64(s.ex, a[pos], ic(q)) for q in range(r)])
        return None if gen in ('free_array', 'copy_array') else res if res is not None else out
    J = Job(ctx, mods, fn, '', {q: (lambda s, q=q: ptab('arg%d' % q)) for q in range(lead)}, {gen: h}); a = J.a; R = J.R
    ev = J.calls(gen)
    if len(ev) != 1: ctx.result('%s: one call of %s' % (fn, gen), prove.Result(False, 'frame', '%d calls' % len(ev))); return
    c, note, g = ev[0][2], ev[0][3], ev[0][1]
    J.P('always', g)
    for q in range(lead): J.P('array %d forwarded' % q, peq(c[q], a[q]))
    J.P('rank', eq(c[lead], ic(r)))
    if pos is not None: J.P('extents in order', andl([eq(x, a[lead + q]) for q, x in enumerate(note[0])]))
    if gen != 'free_array':
        sz = c[pos + 1]; J.P('element size', eq(sz, ic(size)) if size else eq(sz, a[lead + r]))
        if gen == 'array_from_mem': J.P('own block for the tables', eq(c[pos + 2], ONE) if size else eq(c[pos + 2], a[lead + r + 1]))
    if gen not in ('free_array', 'copy_array'): J.P('result', eq(J.rv, res) if res is not None else peq(J.rv, out))
LT = {'uc': ('i', 1), 'c': ('i', 1), 'us': ('i', 2), 's': ('i', 2), 'ui': ('i', 4), 'i': ('i', 4), 'ul': ('i', 8), 'l': ('i', 8), 'ui64': ('i', 8), 'i64': ('i', 8), 'd': ('d', 8), 'f': ('d', 4)}
def llty(t): k, n = LT[t]; return {1: ir.I8, 2: ir.I16, 4: ir.I32, 8: ir.I64}[n] if k == 'i' else ir.DBL if n == 8 else ir.Ty('float')
def fill(ctx, mods, fn, gen, r, t, size):
    """init_arrayN(a, extents, x) and copy_arrayN(a2, a1, extents)"""
    copy = gen == 'copy_array'; na = 2 if copy else 1; sub = '%s%d_%s' % (gen, r - 1, t)
    f0 = (lambda nm: (lambda s: vec(nm, size))) if r == 1 else (lambda nm: (lambda s: ptab(nm)))
    over = {q: f0('arg%d' % q) for q in range(na)}
    ext = lambda R: [le(ZERO, R.a[na + q]) for q in range(r)] + ([le(ZERO, R.a[na + r]), lt(R.a[na + r], ic(1 << (8*size - 1)))] if not copy and R.a[na + r].s == 'i' and size < 8 else [])
    J = Job(ctx, mods, fn, '', over, {sub: None} if r > 1 else {}, lambda R, s: ext(R), rec=True); a = J.a; ex = J.ex; m = a[na]
    if copy: J.unchanged('the source', a[1])
    if r == 1:
        k = ivar('k'); g = and_(le(ZERO, k), lt(k, m)); ty = llty(t); ld = lambda p, g, tm=None: ex.load(ex.padd(p, scale(size, k)), ty, g, tm)
        want = ld(a[1], g, J.R.t0) if copy else a[2]
        J.EQ('every element', ld(a[0], g), want, g); J.EQ('nothing else', ld(a[0], not_(g)), ld(a[0], not_(g), J.R.t0), not_(g))
        return
    J.unchanged('the index table', a[0])
    ev = J.calls(sub)
    if len(ev) != 1 or len(ev[0][0]) != 1: ctx.undecided(fn, 'not a loop over %s' % sub); return
    (k, hi), = ev[0][0]; c = ev[0][2]; g = andl([ev[0][1], le(ZERO, k), lt(k, hi)]); dom = and_(le(ZERO, k), lt(k, m))
    J.P('every row', and_(ev[0][1], lt(k, hi)), dom); J.P('no row that does not exist', dom, g)
    for q in range(na): J.P('row %d of the loop' % q, peq(c[q], lp(ex, a[q], k, g)), g)
    J.P('with the other extents in order', andl([eq(c[na + q], a[na + 1 + q]) for q in range(r - 1)]), g)
    if not copy:
        for q in range(na + r - 1, len(c)): J.EQ('value', c[q], a[q + 1], g)
def dup(ctx, mods, fn, r, t):
    n = 'alloc_array%d_%s' % (r, t); cp = 'copy_array%d_%s' % (r, t); out = ptr(Fam('result'))
    J = Job(ctx, mods, fn, '', {0: lambda s: ptab('a1')}, {n: lambda s, g, a: out, cp: None}); a = J.a
    J.P('an array of the same extents', J.R.called(n, args=lambda c: andl([eq(c[q], a[1 + q]) for q in range(r)])))
    J.P('copied', J.R.called(cp, args=lambda c: andl([peq(c[0], out), peq(c[1], a[0])] + [eq(c[2 + q], a[1 + q]) for q in range(r)])))
    J.P('returned', peq(J.rv, out))

def postfixes():
    s = open(os.path.join(build.REPO, 'misc/gutil_alloc.c')).read()
    return [(a, b) for a, b in re.findall(r'#define\s+postfix_\s+(\w+)\s+#define\s+type_\s+(\w+)', s)]
def run(ctx):
    mods = ctx.load('misc/gutil_alloc.c')
    fns = {f.name.lstrip('@') for m in mods for f in m.funcs.values()}
    jobs = [(mem_length, r) for r in range(1, MAXR + 1)] + [(init, r) for r in range(MAXR)] + [(init_mem, r) for r in range(1, MAXR)] + [(lemma, r) for r in range(1, MAXR + 1)]
    jobs += [(assign, r, q) for r in range(2, MAXR + 1) for q in range(r - 1)]
    for fn in ('ptr_array_alloc', 'ptr_array_realloc', 'ptr_array_from_mem', 'alloc_array', 'realloc_array', 'array_from_mem', 'free_array', 'copy_array', 'dup_array'): jobs += [(top, fn, r) for r in range(1, MAXR + 1)]
    pf = postfixes(); sizes = dict(zip([p for p, _ in pf], build.consts(*['sizeof(%s)' % t for _, t in pf]))) if pf else {}
    for fn in sorted(fns):
        m = re.match(r'(array_mem_length|alloc_array|realloc_array|array_from_mem|free_array|copy_array|dup_array|init_array)(\d)(?:_(\w+))?$', fn)
        if not m: continue
        gen, r, t = m.group(1), int(m.group(2)), m.group(3)
        if t and gen in ('init_array', 'copy_array'):
            if gen == 'init_array' and (t == 'fc' or t == 'f' and r == 1): continue      # values passed as vectors: natively only
            if r > 1 or t in LT: jobs.append((fill, fn, gen, r, t, sizes.get(t, 8)))
        elif t and gen == 'dup_array': jobs.append((dup, fn, r, t))
        elif gen != 'init_array': jobs.append((wrapper, fn, gen, r, sizes.get(t) if t else None, None))
    def one(c, j):
        try: j[0](c, mods, *j[1:])
        except (Unsupported, solve.TooBig, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, prove.OutOfTime) as e:
            if os.environ.get('VF_TRACE'): import traceback; traceback.print_exc()
            c.undecided('%s %s' % (j[0].__name__, j[1:]), '%s: %s' % (type(e).__name__, e))
    ctx.par(jobs, one)
    if os.path.exists(os.path.join(build.VERIF if hasattr(build, 'VERIF') else '/verif', 'replay/C10.c')): ctx.run_native('every element once, in order, inside the block', 'random numbers of dimensions and extents, all element types')
    ctx.assume('extents and block lengths do not overflow size_t, extents fit an int')
    ctx.assume('a call of ptr_array_assign() for a lower level does not write the tables of this level (they do not overlap: lemma, array_mem_length)')
