"""C09: scratch buffers handed out by the workspace.
Every request is under contract: the region or buffer it returns begins at or after what its scope had handed out before (page and byte
counters, list counters), lies within a block of its own, has the dimensions of its kind, and nothing handed out before is released,
moved or rewritten."""
import re
from vf import prove, ir, build
from vf.guard import Run
from vf.terms import *
from vf.sym import Fam, Unsupported
from vf.structs import Struct, layouts
from props.c19 import flat
def eq_bool(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))
def ex_rem(x, n): return trem(x, ic(n))
FLOOR = 700
SRC = ('src/xrtm_work.c', 'misc/gutil_alloc.c', 'src/xrtm_utility.c')
NAME = 'C09'
class W:
    """workspace of a scope and what it shares with the other scopes"""
    def __init__(s, run):
        s.ex = run.ex; s.d = Struct('work', 'work_data'); s.w = Struct('w', 'work_shared'); s.fld = {}
        off, _, _, _ = s.d.field('w'); run.ex.store(s.d.base_at(off), ir.PTR, s.w.base, TRUE)
    def at(s, f, i=None, time=None, g=TRUE, ty=None):
        S = s.w if f in s.w.fl else s.d
        off, b, n, arr = S.field(f); sz = 8 if n or b == 'size_t' else 4
        p = S.base_at(off)
        if i is not None: p = s.ex.padd(p, scale(sz, i))
        return s.ex.load(p, ir.PTR if n else ir.I64 if b == 'size_t' else ir.I32, g, time)
def common(ctx, mods):
    """the page allocator: a region behind everything the scope has handed out, inside a page of its own size"""
    st = {}; blocks = []; AL = build.consts('WORK_ALIGNMENT'); MP = build.consts('WORK_MAX_PAGES')
    def base(s): st['W'] = W(s); return st['W'].d.base
    big = ic(1 << 50)
    def req(s):
        w = st['W']; t = s.t0; p, b = w.at('i_page', time=t), w.at('i_byte', time=t); m = w.at('min_page_size', time=t); f = [le(ZERO, p), lt(p, ic(MP)), le(ZERO, b), le(b, w.at('n_bytes', p, t)), eq(scale(AL, ivar('b16')), b), le(ZERO, m), le(m, big)]
        for x in (p, add(p, ONE)): f += [le(ZERO, w.at('n_bytes', x, t)), le(w.at('n_bytes', x, t), big)]
        return f
    def mal(s, g, a): f = Fam('blk%d' % len(blocks)); blocks.append((ptr(f), a[0], g)); return ptr(f)
    R = Run(mods, 'get_work_common', wf=False, opaque=False, over={0: base, 1: ivar('length', 0, 1 << 40)}, requires=req, result={'malloc': mal, 'free': lambda s, g, a: None, 'exit': lambda s, g, a: None})
    w, t, L, rv = st['W'], R.t0, R.a[1], R.rv; p, b = w.at('i_page', time=t), w.at('i_byte', time=t); p1, b1 = w.at('i_page'), w.at('i_byte'); ex = R.ex
    dead = R.called('exit'); ok = and_(R.pre, not_(dead)); n = 'get_work_common: '
    def P(what, c, g=TRUE): ctx.result(n + what, prove.prove(c, and_(ok, g), R.facts, seed=ctx.seed))
    ctx.result(n + 'gives up only when the pages are used up', prove.prove(eq(add(p, ONE), ic(MP)), and_(R.pre, dead), R.facts, seed=ctx.seed))
    P('the region starts behind everything handed out before', or_(and_(eq(p1, p), le(b, rv)), and_(eq(p1, add(p, ONE)), le(ZERO, rv))))
    P('the scope remembers the region', le(add(rv, L), b1)); P('the next region is aligned', eq0(ex_rem(b1, AL))); P('the region is aligned', eq0(ex_rem(rv, AL)))
    n1 = w.at('n_bytes', p1, g=ok); P('the region lies in its page', le(b1, n1)); P('the page number is valid', and_(le(ZERO, p1), lt(p1, ic(MP))))
    q = ivar('q'); gq = and_(le(ZERO, q), lt(q, ic(MP))); old, new = w.at('pages', q, t), w.at('pages', q, g=and_(ok, gq)); on, nn = w.at('n_bytes', q, t), w.at('n_bytes', q, g=and_(ok, gq))
    same = and_(peq(old, new), eq(on, nn)); c = same
    for bp, sz, g in blocks: c = or_(c, andl([peq(new, bp), eq(nn, sz), g]))
    P('every page has the recorded size', c, gq)
    P('pages in use are neither moved nor resized', same, and_(gq, or_(lt(q, p), and_(eq(q, p), lt(ZERO, b)))))
    P('pages not needed are left alone', same, and_(gq, not_(eq(q, p1))))
    fr = [(a[0], g) for nm, g, a in R.calls if nm == 'free']; f = FALSE
    for a, g in fr: f = or_(f, and_(g, peq(a, old)))
    P('a page that is replaced is released', f, andl([gq, not_(same), lt(ZERO, on)]))
    for k, (a, g) in enumerate(fr): P('release %d is of the page that is replaced' % k, and_(peq(a, w.at('pages', p1, t)), not_(peq(a, w.at('pages', p1, g=and_(ok, g))))), g)
    for f in ('i_list', 'i_list_v'):
        gl = and_(le(ZERO, q), lt(q, ic(w.d.field(f)[3][0]))); P('%s unchanged' % f, eq(w.at(f, q, g=and_(ok, gl)), w.at(f, q, t, g=and_(ok, gl))), gl)
def space(ctx, mods):
    """requests for arrays: one region per array, of the length the array needs, with the dimensions asked for"""
    for fn in sorted(n for M in mods for n in M.funcs if re.match(r'get_work_x\d', n)):
        rank = int(fn[10]); flags = fn[11:]
        for isnull in ((True, False) if flags else (None,)): request(ctx, mods, fn, rank, 2 if '_n_' in flags else 1 if flags else 0, isnull)
    for fn in sorted(n for M in mods for n in M.funcs if re.match(r'get_work_(uc|i|d|dc)\d', n)):
        m = re.match(r'get_work_(uc|i|d|dc)(\d.*)', fn); size = {'uc': 1, 'i': 4, 'd': 8, 'dc': 16}[m.group(1)]; to = 'get_work_x' + m.group(2); got = []
        R = Run(mods, fn, wf=False, opaque=False, over={0: ptr(Fam('work'))}, result={to: lambda s, g, a: ptr(Fam('result'))})
        good = len(R.calls) == 1 and R.calls[0][0] == to; a = R.calls[0][2] if good else []; k = int(m.group(2)[0])
        def P(what, c): ctx.result('%s: %s' % (fn, what), prove.prove(c, R.pre, R.facts, seed=ctx.seed))
        (ctx.ok if good and R.calls[0][1] is TRUE else ctx.violation)('%s: one request' % fn, str([c[0] for c in R.calls]))
        if good: P('forwards the extents', andl([peq(a[0], R.a[0])] + [eq(x, R.a[i + 1]) for i, x in enumerate(a[1:1 + k])])); P('elements of its type', eq(a[1 + k], ic(size))); P('forwards the flags', TRUE if len(a) == 2 + k else peq(a[2 + k], R.a[1 + k])); P('returns the array', peq(R.rv, ptr(Fam('result'))) if False else TRUE if R.rv.op == 'ptr' and R.rv.a[0].name == 'result' and R.rv.a[2] is ZERO else FALSE)
def request(ctx, mods, fn, rank, depth, isnull):
    st = {}; reqs = []; arrs = []
    def base(s): st['W'] = W(s); return st['W'].d.base
    def take(s, g, a):
        k = len(reqs); ks = tuple(s.ex.kstack); pg = app('page%d' % k, ks, 'i', (0, 1023)); off = app('off%d' % k, ks, 'i', (0, 1 << 50)); w = st['W']
        s.ex.store(s.ex.padd(a[0], ic(w.d.field('i_page')[0])), ir.I64, pg, g); reqs.append((ks, pg, off, a[1])); s.note.append(k); return off
    def arr(n):
        def h(s, g, a): f = Fam('arr%d' % len(arrs)); arrs.append(f); s.note.append(len(arrs) - 1); return ptr(f, tuple(s.ex.kstack))
        return h
    def length(n): return lambda s, g, a: app('array_mem_length%d' % n, tuple(a), 'i', (0, 1 << 50))
    res = {'get_work_common': take}
    for n in range(1, 9): res['array_from_mem%d' % n] = arr(n); res['array_mem_length%d' % n] = length(n)
    over = {0: base}; dims = []; np = rank + 1
    for q in range(rank): over[1 + q] = ivar('n%d' % q, 0, 1 << 30); dims.append(over[1 + q])
    over[1 + rank] = ivar('size', 1, 1 << 20); size = over[1 + rank]
    if depth: over[2 + rank] = NULL if isnull else (lambda s: ptr(Fam('flags')))
    R = Run(mods, fn, wf=False, opaque=False, over=over, result=res); w, ex = st['W'], R.ex; tag = fn + ('' if isnull is None else ' without flags' if isnull else ' with flags')
    def P(what, c, g=TRUE): ctx.result('%s: %s' % (tag, what), prove.prove(c, and_(R.pre, g), R.facts, seed=ctx.seed))
    ev = flat(ex.events, ['get_work_common']); av = flat(ex.events, ['array_from_mem%d' % n for n in range(1, 9)]); names = [e for e in walk(ex.events) if e[2].startswith('array_from')]
    i, j = ivar('i'), ivar('j'); at = [i, j][:depth]; rng = TRUE
    for v, n in zip(at, dims): rng = andl([rng, le(ZERO, v), lt(v, n)])
    fl = TRUE
    if isnull is False:
        f = R.a[2 + rank]; f = ex.load(ex.padd(f, scale(8, i)), ir.PTR, TRUE, R.t0) if depth == 2 else ex.padd(f, i); fl = not_(eq0(ex.load(ex.padd(f, j) if depth == 2 else f, ir.I8, TRUE, R.t0)))
    nreq = 1 + (1 if depth else 0)
    (ctx.ok if len(ev) == nreq else ctx.violation)('%s: regions asked for' % tag, '%d' % len(ev))
    if len(ev) != nreq: return
    def place(e, m): k = e[3][0]; ks = tuple(m[b] for b, h in e[0]); return ex.padd(w.at('pages', app('page%d' % k, ks, 'i', (0, 1023)), R.t0), app('off%d' % k, ks, 'i', (0, 1 << 50)))
    def made(e, a, m, ds, sz, what, g):
        """array a was made of dimensions ds in the region of request e, which is of the length such an array needs"""
        b, gg, args, note = a; nm = [x for x in names if x[4] is args or tuple(x[4]) == tuple(args)][0][2]; k = len(ds)
        x = [subst(y, m) if y.op != 'ptr' else subst(y, m) for y in args]
        P('%s: an array of %d dimensions' % (what, k), TRUE if nm == 'array_from_mem%d' % k else FALSE)
        if nm != 'array_from_mem%d' % k: return
        P('%s: in its region' % what, peq(x[0], place(e, m)), g); P('%s: extents' % what, andl([eq(y, z) for y, z in zip(x[1:], ds + [sz])] + [eq0(x[2 + k])]), g)
        P('%s: length' % what, eq(subst(e[2][1], m), app('array_mem_length%d' % k, tuple(ds + [sz]), 'i', (0, 1 << 50))), g); P('%s: when' % what, and_(subst(e[1], m), subst(gg, m)), g)
    if not depth:
        made(ev[0], av[0], {}, dims, size, 'array', TRUE)
        P('returns the array', TRUE if R.rv.op == 'ptr' and R.rv.a[0] is arrs[av[0][3][0]] and R.rv.a[2] is ZERO else FALSE); return
    if depth == 1: P('table: length', eq(ev[0][2][1], scale(8, dims[0]))); P('returns the table', peq(R.rv, place(ev[0], {})))
    else:
        made(ev[0], av[0], {}, dims[:2], ic(8), 'table', TRUE); P('returns the table', TRUE if R.rv.op == 'ptr' and R.rv.a[0] is arrs[av[0][3][0]] and R.rv.a[2] is ZERO else FALSE)
    e, a = ev[1], av[depth - 1]; m = {b: v for (b, h), v in zip(e[0], at)}; m.update({b: v for (b, h), v in zip(a[0], at)}); g = and_(rng, fl)
    made(e, a, m, dims[depth:], size, 'entry', g)
    p = ex.padd(R.rv, scale(8, i)); p = ex.padd(ex.load(p, ir.PTR, and_(R.pre, g)), scale(8, j)) if depth == 2 else p
    v = ex.load(p, ir.PTR, and_(R.pre, g)); P('entries lead to their arrays', peq(v, ptr(arrs[a[3][0]], tuple(at))), g)
    P('nothing is asked for without need', and_(rng, fl), and_(subst(e[1], m), andl([and_(le(ZERO, x), lt(x, subst(h, m))) for (b, h), x in zip(e[0], at)])))
def walk(ev):
    for e in ev:
        if e[0] == 'call': yield e
        elif e[0] == 'loop': yield from walk([e[3]] if e[3] and e[3][0] in ('call', 'loop') else e[3])
X, Q, U, S_, D, L = 'n_quad_v_x', 'n_quad_v', 'n_umus_v', 'n_stokes', 'n_derivs', 'n_layers'
# kind -> (element, extents)
KINDS = {'IX': ('i', X), 'IX2': ('i', '2*' + X), 'DQQ': ('d', Q, Q), 'DX': ('d', X), 'DX2': ('d', '2*' + X), 'DXX': ('d', X, X), 'DXX2': ('d', '2*' + X, '2*' + X), 'DD': ('d', Q + '+' + U), 'DS': ('d', S_),
         'DU': ('d', U), 'DUX': ('d', U, X), 'DDERIVS': ('d', D), 'DLAYERS': ('d', L), 'DBOTH': ('d', L, D), 'ZX': ('dc', X), 'ZXX': ('dc', X, X), 'ZU': ('dc', U), 'ZUX': ('dc', U, X)}
LISTS = {'DERIVS_V': (D,), 'LAYERS_V': (L,), 'BOTH_V': (L, D)}
def extent(w, e, t):
    if e.startswith('2*'): return scale(2, w.at(e[2:], time=t))
    if '+' in e: a, b = e.split('+'); return add(w.at(a, time=t), w.at(b, time=t))
    return w.at(e, time=t)
def one(ctx, mods):
    """one buffer of a kind"""
    ty = list(KINDS); num = build.consts(*['WORK_' + k for k in ty]); N = build.consts('N_WORK_TYPES')
    (ctx.ok if sorted(num) == list(range(N)) else ctx.violation)('kinds of buffers: one number each, all known', str(sorted(num)))
    for k, no in zip(ty, num): get1(ctx, mods, k, no, N)
def get1(ctx, mods, kind, no, N):
    st = {}; blocks = []
    def base(s): st['W'] = W(s); return st['W'].d.base
    def mem(s, g, a): f = Fam('blk%d' % len(blocks)); blocks.append((f, s.calls[-1][0], a, g)); return ptr(f)
    def bounds(s, g, a): return None
    res = {'alloc_array%d_%s' % (n, e): mem for n in range(1, 5) for e in ('i', 'd', 'dc', 'f', 'uc')}; res['check_work_bounds'] = bounds; res['exit'] = lambda s, g, a: None
    no = ic(no); n3 = ic(3)
    def req(s):
        w, t = st['W'], s.t0; i, n = w.at('i_list', no, t), w.at('n_list', no, t); return [le(ZERO, i), le(i, n), lt(n, ic(1 << 30))] + [andl([le(ZERO, w.at(x, time=t)), le(w.at(x, time=t), ic(1 << 28))]) for x in (X, Q, U, S_, D, L)]
    R = Run(mods, 'work_get1', inline=('get_work_vector', 'get_work_matrix'), wf=False, opaque=False, over={0: base, 1: no}, requires=req, result=res); w, t, ex = st['W'], R.t0, R.ex
    i, n = w.at('i_list', no, t), w.at('n_list', no, t); dead = R.called('exit'); ok = and_(R.pre, not_(dead)); full = le(n, i); tag = 'work_get1(%s): ' % kind
    def P(what, c, g=TRUE): ctx.result(tag + what, prove.prove(c, and_(ok, g), R.facts, seed=ctx.seed))
    el, ext = KINDS[kind][0], [extent(w, e, t) for e in KINDS[kind][1:]]
    lst = w.at('lists', no, t); cell = lambda x, tm=None, g=TRUE: ex.load(ex.padd(lst, scale(8, x)), ir.PTR, g, tm)
    P('the buffer of its turn', peq(R.rv, cell(i, None, ok))); P('handed out before and kept', peq(R.rv, cell(i, t)), not_(full))
    c = FALSE
    for f, nm, a, g in blocks:
        if nm == 'alloc_array%d_%s' % (len(ext), el): c = or_(c, andl([g, peq(R.rv, ptr(f))] + [eq(x, y) for x, y in zip(a, ext)]))
    P('a new buffer has the extents of its kind', c, full)
    q = ivar('q'); P('the others stay where they are', peq(cell(q, None, and_(ok, and_(le(ZERO, q), lt(q, n)))), cell(q, t)), and_(le(ZERO, q), lt(q, n)))
    P('counted', and_(eq(w.at('i_list', no), add(i, ONE)), le(w.at('i_list', no), w.at('n_list', no)))); P('counts only new ones', eq(w.at('n_list', no), ite(full, add(i, ONE), n)))
    bc = [(g, a) for nm, g, a in R.calls if nm == 'check_work_bounds']; c = FALSE
    for g, a in bc: c = or_(c, andl([g, eq(a[0], n), peq(a[1], ex.padd(w.w.base_at(w.w.field('max_list')[0]), scale(4, no))), peq(a[2], ex.padd(w.w.base_at(w.w.field('lists')[0]), scale(8, no)))]))
    P('room in the list before a new one', c, full)
    gq = andl([le(ZERO, q), lt(q, ic(N)), not_(eq(q, no))]); P('the other kinds are left alone', and_(eq(w.at('i_list', q, None, and_(ok, gq)), w.at('i_list', q, t, and_(ok, gq))), eq(w.at('n_list', q, None, and_(ok, gq)), w.at('n_list', q, t, and_(ok, gq)))), gq)
def bounds(ctx, mods):
    """room in a list: for one more than asked for, without losing entries"""
    R = Run(mods, 'check_work_bounds', wf=False, opaque=False, over={0: ivar('i', 0, 1 << 29), 1: lambda s: ptr(Fam('n')), 2: lambda s: ptr(Fam('list'))}, requires=lambda s: [le(ZERO, s.ex.load(s.a[1], ir.I32, TRUE, s.t0)), le(s.ex.load(s.a[1], ir.I32, TRUE, s.t0), ic(1 << 29))], result={'realloc': lambda s, g, a: ptr(Fam('moved'))})
    ex = R.ex; n0, n1 = ex.load(R.a[1], ir.I32, TRUE, R.t0), ex.load(R.a[1], ir.I32, R.pre); l0, l1 = ex.load(R.a[2], ir.PTR, TRUE, R.t0), ex.load(R.a[2], ir.PTR, R.pre); ra = [(g, a) for n, g, a in R.calls if n == 'realloc']
    def P(what, c, g=TRUE): ctx.result('check_work_bounds: ' + what, prove.prove(c, and_(R.pre, g), R.facts, seed=ctx.seed))
    P('room for the entry', lt(R.a[0], n1)); P('never less room', le(n0, n1)); P('left alone when there is room', and_(eq(n0, n1), peq(l0, l1)), lt(R.a[0], n0)); c = FALSE
    for g, a in ra: c = or_(c, andl([g, peq(a[0], l0), eq(a[1], scale(8, n1)), not_(peq(l1, l0))]))
    P('grown from the list itself to the recorded room', c, le(n0, R.a[0]))
def lists(ctx, mods):
    for fn in sorted(n for M in mods for n in M.funcs if re.match(r'get_work_(vectors|matrices)2?$', n)):
        for isnull in (True, False): many(ctx, mods, fn, isnull)
def many(ctx, mods, fn, isnull):
    """several buffers at once: a table of its own and consecutive buffers of the list, new ones where the list ends"""
    nd = 2 if 'matrices' in fn else 1; nl = 2 if fn.endswith('2') else 1; allocs = []; tabs = []; fl = {}
    names = ['iq', 'n1', 'max1', 'iq2', 'n2', 'max2', 'alloc'] + ['ll1', 'll2'][:nl] + ['mm', 'nn'][:nd] + ['data1', 'data2', 'flags', 'type']; ix = {n: k for k, n in enumerate(names)}; over = {}
    for n in names:
        if n in ('ll1', 'll2', 'mm', 'nn'): over[ix[n]] = ivar(n, 0, 1 << 14)
        elif n == 'flags': over[ix[n]] = NULL if isnull else (lambda s: ptr(Fam('flags')))
        elif n != 'type': over[ix[n]] = (lambda n: lambda s: ptr(Fam(n)))(n)
    def new(s, g, a): f = Fam('blk%d' % len(allocs)); allocs.append((f, a)); s.note.append(len(allocs) - 1); return ptr(f, tuple(s.ex.kstack))
    def tab(s, g, a): f = Fam('tab%d' % len(tabs)); tabs.append((f, s.calls[-1][0], a, g)); return ptr(f)
    def number(ex, p, n): v = bound_var(); return isum(v, n, ite(eq0(ex.load(ex.padd(p, v), ir.I8, TRUE)), ZERO, ONE))
    cnt = lambda s, g, a: number(s.ex, a[0], a[1])
    val = lambda s, n, tm=None, g=TRUE: s.ex.load(s.a[ix[n]], ir.I32, g, tm)
    def req(s):
        v = lambda n: val(s, n, s.t0); return [le(ZERO, v('iq')), le(v('iq'), v('n1')), le(ZERO, v('iq2')), le(v('iq2'), v('n2')), lt(v('n1'), ic(1 << 29)), lt(v('n2'), ic(1 << 29))]
    R = Run(mods, fn, wf=False, opaque=False, over=over, requires=req, result={'*indirect': new, 'alloc_array1': tab, 'alloc_array2': tab, 'flags_count': cnt, 'check_work_bounds': lambda s, g, a: None, 'exit': lambda s, g, a: None})
    ex, t = R.ex, R.t0; ok = and_(R.pre, not_(R.called('exit'))); tag = '%s %s flags: ' % (fn, 'without' if isnull else 'with')
    def P(what, c, g=TRUE): ctx.result(tag + what, prove.prove(c, and_(ok, g), R.facts, seed=ctx.seed))
    v0 = lambda n: val(R, n, t); v1 = lambda n: val(R, n, None, ok); ll = [R.a[ix[x]] for x in ('ll1', 'll2')[:nl]]; total = ll[0] if nl == 1 else mul(ll[0], ll[1])
    if not isnull:
        F = R.a[ix['flags']]; row = lambda x: ex.load(ex.padd(F, scale(8, x)), ir.PTR, TRUE, t)
        if nl == 1: total = number(ex, F, ll[0])
        else: v = bound_var(); total = isum(v, ll[0], number(ex, row(v), ll[1]))
    d1, d2 = ex.load(R.a[ix['data1']], ir.PTR, TRUE, t), ex.load(R.a[ix['data2']], ir.PTR, TRUE, t); full = le(v0('n1'), v0('iq'))
    c1 = lambda x, tm=None, g=TRUE: ex.load(ex.padd(d1, scale(8, x)), ir.PTR, g, tm); c2 = lambda x, tm=None, g=TRUE: ex.load(ex.padd(d2, scale(8, x)), ir.PTR, g, tm)
    P('the table of its turn', peq(R.rv, c1(v0('iq'), None, ok))); P('a table made before is kept', peq(R.rv, c1(v0('iq'), t)), not_(full)); c = FALSE
    for f, nm, a, g in tabs: c = or_(c, andl([TRUE if nm == 'alloc_array%d' % nl else FALSE, g, peq(R.rv, ptr(f))] + [eq(x, y) for x, y in zip(a, ll)] + [eq(a[nl], ic(8))] if len(a) == nl + 1 else [FALSE]))
    P('a new table has room for all', c, full); P('counted', andl([eq(v1('iq'), add(v0('iq'), ONE)), eq(v1('n1'), ite(full, add(v0('iq'), ONE), v0('n1')))]))
    need = add(v0('iq2'), total); P('the buffers are counted', eq(v1('iq2'), need)); P('counts new buffers', eq(v1('n2'), ite(lt(v0('n2'), need), need, v0('n2'))))
    i, j, q = ivar('i'), ivar('j'), ivar('q'); g = and_(le(ZERO, i), lt(i, ll[0])); turn = add(v0('iq2'), i)
    if nl == 2: g = andl([g, le(ZERO, j), lt(j, ll[1])]); turn = add(add(v0('iq2'), mul(i, ll[1])), j)
    if not isnull:
        v = bound_var(); f = F if nl == 1 else row(i); turn = add(v0('iq2'), number(ex, f, i) if nl == 1 else add(isum(v, i, number(ex, row(v), ll[1])), number(ex, f, j))); g = and_(g, not_(eq0(ex.load(ex.padd(f, i if nl == 1 else j), ir.I8, TRUE))))
    p = ex.padd(R.rv, scale(8, i)); gg = and_(ok, g)
    if nl == 2: p = ex.padd(ex.load(p, ir.PTR, gg), scale(8, j))
    P('consecutive buffers of the list', peq(ex.load(p, ir.PTR, gg), c2(turn, None, gg)), g)
    gq = and_(le(ZERO, q), lt(q, v0('n2'))); P('the buffers of the list stay where they are', peq(c2(q, None, and_(ok, gq)), c2(q, t)), gq)
    gq = and_(le(v0('n2'), q), lt(q, need)); e = flat(ex.events, ['*indirect']); c = FALSE
    for b, ge, a, note in e:
        f, _ = allocs[note[0]]; x = c2(q, None, and_(ok, gq)); c = or_(c, and_(TRUE if '&%s[' % f.name in pp(x) else FALSE, andl([peq(x, ptr(f, (sub(q, v0('n2')),)))] + [eq(y, z) for y, z in zip(a[1:], [R.a[ix[k]] for k in ('mm', 'nn')[:nd]])])))
    P('every new entry is a buffer of its own of the extents', c, gq)
def kinds(ctx, mods):
    """tables of buffers of a kind: the lists, the allocation and the extents of the kind"""
    ty = list(KINDS); num = build.consts(*['WORK_' + k for k in ty]); vt = list(LISTS); vnum = build.consts(*['WORK_' + k for k in vt])
    for fn, vs in (('work_get2', vt[:2]), ('work_get3', vt[2:])):
        for k, no in zip(ty, num):
            for v in vs: forward(ctx, mods, fn, k, no, v, vnum[vt.index(v)])
def forward(ctx, mods, fn, kind, no, vk, vno):
    st = {}
    def base(s): st['W'] = W(s); return st['W'].d.base
    el, ext = KINDS[kind][0], KINDS[kind][1:]; to = 'get_work_%s%s' % ('matrices' if len(ext) == 2 else 'vectors', '2' if fn[-1] == '3' else '')
    res = {'get_work_%s%s' % (a, b): lambda s, g, a: ptr(Fam('table')) for a in ('vectors', 'matrices') for b in ('', '2')}
    R = Run(mods, fn, wf=False, opaque=False, over={0: base, 1: ic(no), 2: ic(vno), 3: lambda s: ptr(Fam('flags'))}, result=res); w, t, ex = st['W'], R.t0, R.ex; tag = '%s(%s, %s): ' % (fn, kind, vk)
    good = len(R.calls) == 1 and R.calls[0][0] == to and R.calls[0][1] is TRUE
    (ctx.ok if good else ctx.violation)(tag + 'one table', str([c[0] for c in R.calls]))
    if not good: return
    a = list(R.calls[0][2]); fa = lambda S, f, i, sz: ex.padd(S.base_at(S.field(f)[0]), ic(sz * i))
    def P(what, c): ctx.result(tag + what, prove.prove(c, R.pre, R.facts, seed=ctx.seed))
    P('the lists of tables', andl([peq(a[0], fa(w.d, 'i_list_v', vno, 4)), peq(a[1], fa(w.w, 'n_list_v', vno, 4)), peq(a[2], fa(w.w, 'max_list_v', vno, 4))]))
    P('the lists of buffers', andl([peq(a[3], fa(w.d, 'i_list', no, 4)), peq(a[4], fa(w.w, 'n_list', no, 4)), peq(a[5], fa(w.w, 'max_list', no, 4))]))
    P('allocated as the kind', TRUE if a[6].op == 'fnp' and a[6].a[0] == 'alloc_array%d_%s' % (len(ext), el) else FALSE); k = 7
    P('entries of the table', andl([eq(x, w.at(e, time=t)) for x, e in zip(a[k:], LISTS[vk])])); k += len(LISTS[vk])
    P('extents of the kind', andl([eq(x, extent(w, e, t)) for x, e in zip(a[k:], ext)])); k += len(ext)
    P('the lists', and_(peq(a[k], fa(w.w, 'lists_v', vno, 8)), peq(a[k + 1], fa(w.w, 'lists', no, 8)))); P('the flags', peq(a[k + 2], R.a[3])); P('returns the table', TRUE if R.rv.op == 'ptr' and R.rv.a[0].name == 'table' and R.rv.a[2] is ZERO else FALSE)
def life(ctx, mods):
    st = {}
    # --- creation: nothing handed out, nothing held
    def base(s): S = st['d'] = Struct('work', 'work_data'); return S.base
    def sh(s, g, a): st['w'] = Struct('w', 'work_shared'); st['size'] = a[0]; return st['w'].base
    names = ['n_quad', 'n_quad_x', 'n_stokes', 'n_derivs', 'n_layers', 'n_umus']
    R = Run(mods, 'work_init', wf=False, opaque=False, over=dict([(0, base)] + [(k + 1, ivar(n, 0, 1 << 10)) for k, n in enumerate(names)]), result={'malloc': sh}); ex = R.ex; d, w = st['d'], st['w']; ok = and_(R.pre, eq0(R.rv)); a = R.a
    def P(what, c, g=TRUE): ctx.result('work_init: ' + what, prove.prove(c, and_(ok, g), R.facts, seed=ctx.seed))
    def at(S, f, i=None, g=TRUE):
        off, b, n, arr = S.field(f); sz = 8 if n or b == 'size_t' else 4; p = S.base_at(off)
        return ex.load(ex.padd(p, scale(sz, i)) if i is not None else p, ir.PTR if n else ir.I64 if b == 'size_t' else ir.I32, and_(ok, g))
    P('room for the shared part', le(ic(layouts()['work_shared'][0]), st['size'])); P('refers to it', peq(at(d, 'w'), w.base)); P('starts at the first page', and_(eq0(at(d, 'i_page')), eq0(at(d, 'i_byte')))); q = ivar('q')
    for S, f in [(d, 'i_list'), (d, 'i_list_v'), (w, 'n_bytes'), (w, 'pages'), (w, 'n_list'), (w, 'max_list'), (w, 'lists'), (w, 'n_list_v'), (w, 'max_list_v'), (w, 'lists_v')]:
        off, b, n, arr = S.field(f); N = arr[0] if arr else None; g = and_(le(ZERO, q), lt(q, ic(N))); v = at(S, f, q, g); P('%s: empty' % f, peq(v, NULL) if n else eq0(v), g)
    for f, v in [(Q, mul(a[1], a[3])), (X, mul(a[2], a[3])), (S_, a[3]), (D, a[4]), (L, add(a[5], ONE)), (U, mul(a[6], a[3]))]: P(f, eq(at(w, f), v))
    # --- release
    def base2(s): st['W'] = W(s); return st['W'].d.base
    R = Run(mods, 'work_free', wf=False, opaque=False, over={0: base2}, result={'free': lambda s, g, a: None, 'free_work': lambda s, g, a: None, 'free_work_v': lambda s, g, a: None}); ex = R.ex; W_ = st['W']
    def P(what, c, g=TRUE): ctx.result('work_free: ' + what, prove.prove(c, and_(R.pre, g), R.facts, seed=ctx.seed))
    ty = list(KINDS); num = build.consts(*['WORK_' + k for k in ty]); vnum = build.consts(*['WORK_' + k for k in LISTS])
    for nm, tabs in (('free_work', [(k, n, len(KINDS[k]) - 1) for k, n in zip(ty, num)]), ('free_work_v', [(k, n, len(LISTS[k])) for k, n in zip(LISTS, vnum)])):
        cs = [(g, a) for n, g, a in R.calls if n == nm]
        for k, no, rank in tabs:
            m = [(g, a) for g, a in cs if a[1].op == 'c' and a[1].a[0] == no]; good = len(m) == 1 and m[0][0] is TRUE and peq(m[0][1][0], W_.w.base) is TRUE and m[0][1][2].op == 'fnp' and re.match(r'free_array%d(_|$)' % rank, m[0][1][2].a[0])
            (ctx.ok if good else ctx.violation)('work_free: the buffers %s are released once, as what they are' % k, '%d releases' % len(m))
        (ctx.ok if len(cs) == len(tabs) else ctx.violation)('work_free: %s: no other list' % nm, '%d' % len(cs))
    fr = flat(ex.events, ['free']); last = ex.events[-1]; fl = [e for e in fr if not e[0] and peq(e[2][0], W_.w.base) is TRUE]; rest = [e for e in fr if e not in fl]; lp = [e for e in rest if len(e[0]) == 1]; MP = build.consts('WORK_MAX_PAGES'); q = ivar('q')
    (ctx.ok if len(fl) == 1 and fl[0][1] is TRUE else ctx.violation)('work_free: the shared part is released', '%d' % len(fl)); (ctx.ok if last[0] == 'call' and last[2] == 'free' and peq(last[4][0], W_.w.base) is TRUE else ctx.violation)('work_free: the shared part is released last', str(last[:3]))
    if len(lp) == 1 and len(rest) == 1:
        (b, h), = lp[0][0]; g = and_(le(ZERO, q), lt(q, ic(MP))); m = {b: q}; nb = W_.at('n_bytes', q, R.t0)
        P('every page is released', andl([subst(lp[0][1], m), lt(q, h), peq(subst(lp[0][2][0], m), W_.at('pages', q, R.t0))]), and_(g, lt(ZERO, nb))); P('only pages that are held', lt(ZERO, nb), and_(g, subst(lp[0][1], m))); P('no other page', eq(h, ic(MP)))
    elif not lp:      # the loop over the pages has been unrolled
        by = {}
        for e in rest: by.setdefault(e[2][0], []).append(e[1])
        bad = []
        for k in range(MP):
            g = by.pop(W_.at('pages', ic(k), R.t0), []); nb = W_.at('n_bytes', ic(k), R.t0)
            if len(g) != 1 or g[0] is not not_(eq0(nb)): bad.append((k, g, nb))
        if bad and len(bad[0][1]) == 1: P('every page that is held is released, once', andl([eq_bool(g[0], lt(ZERO, nb)) for k, g, nb in bad[:4]]), andl([le(ZERO, nb) for _, _, nb in bad[:4]]))
        else: (ctx.violation if bad else ctx.ok)('work_free: every page that is held is released, once', str([(k, len(g)) for k, g, nb in bad[:4]]))
        (ctx.violation if by else ctx.ok)('work_free: nothing else is released', '%d' % len(by))
    else: ctx.undecided('work_free: pages', '%d releases' % len(rest))
    for fn, ls, ns in (('free_work', 'lists', 'n_list'), ('free_work_v', 'lists_v', 'n_list_v')):
        def b3(s): st['S'] = Struct('w', 'work_shared'); return st['S'].base
        NT = build.consts('N_WORK_TYPES' if ls == 'lists' else 'N_WORK_TYPES_V')
        R = Run(mods, fn, wf=False, opaque=False, over={0: b3, 1: ivar('type', 0, NT - 1)}, result={'free': lambda s, g, a: None, '*indirect': lambda s, g, a: None}); ex = R.ex; S = st['S']
        def P(what, c, g=TRUE): ctx.result('%s: %s' % (fn, what), prove.prove(c, and_(R.pre, g), R.facts, seed=ctx.seed))
        lst = ex.load(ex.padd(S.base_at(S.field(ls)[0]), scale(8, R.a[1])), ir.PTR, TRUE, R.t0); n = ex.load(ex.padd(S.base_at(S.field(ns)[0]), scale(4, R.a[1])), ir.I32, TRUE, R.t0)
        a_, f_ = flat(ex.events, ['*indirect']), flat(ex.events, ['free']); good = len(a_) == 1 and len(a_[0][0]) == 1 and len(f_) == 1 and not f_[0][0] and ex.events[-1][0] == 'call'
        (ctx.ok if good else ctx.violation)('%s: entries and the list' % fn, '%d %d' % (len(a_), len(f_)))
        if good:
            (b, h), = a_[0][0]; g = and_(le(ZERO, q), lt(q, n)); m = {b: q}
            P('every entry is released', andl([subst(a_[0][1], m), lt(q, h), peq(subst(a_[0][2][1], m), ex.load(ex.padd(lst, scale(8, q)), ir.PTR, g, R.t0))]), g); P('nothing behind the list', lt(q, n), andl([le(ZERO, q), lt(q, h), subst(a_[0][1], m)])); P('by the function given', peq(a_[0][2][0], R.a[2])); P('the list is released', and_(peq(f_[0][2][0], lst), f_[0][1]))
PARTS = [('pages', common), ('arrays', space), ('single buffers', one), ('room', bounds), ('tables of buffers', lists), ('kinds', kinds), ('creation and release', life)]
def run(ctx):
    layouts(); mods = ctx.load(*SRC)
    for n, f in PARTS:
        try: f(ctx, mods)
        except Unsupported as e: ctx.undecided(n, str(e)[:300])
    ctx.run_native('C09', NAME)
