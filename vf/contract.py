"""Function contracts: parameters, preconditions, postconditions over every cell, frames.

A contract lists, for each array parameter, the cells the function may change and the value each must hold
afterwards; every other cell of every family must keep its initial value.  The obligation for a cell is generated
at a generic (symbolic) index, so one obligation covers all cells, all lengths and all inputs."""
import json, time, mpmath, ctypes
from .terms import *
from . import terms as TM
from . import ir, sym, solve, prove, native
from .sym import Exec, Fam, Unsupported
from .solve import Point, Undef

class Int:
    def __init__(s, name, lo=None, hi=None, small=None): s.name, s.lo, s.hi, s.small = name, lo, hi, small
class Dbl:
    def __init__(s, name, lo=None, hi=None, val=None): s.name = name; s.lo = lo; s.hi = hi; s.val = val
class Arr:
    """ty in d,i,uc; dims: list of functions (S)->term or ints or parameter names"""
    def __init__(s, name, ty, *dims, lo=None, hi=None, null=False, contig=False): s.name, s.ty, s.dims, s.lo, s.hi, s.null, s.contig = name, ty, dims, lo, hi, null, contig
class Alias:
    """the same object as parameter `of`"""
    def __init__(s, name, of): s.name, s.of = name, of
class Null:
    def __init__(s, name): s.name = name
class Other:
    """built by make(S) -> value"""
    def __init__(s, name, make): s.name, s.make = name, make
TYS = {'d': ir.DBL, 'i': ir.I32, 'uc': ir.I8, 'l': ir.I64, 'u16': ir.Ty('i', 16) if hasattr(ir, 'Ty') else None}
SZ = {'d': 8, 'i': 4, 'uc': 1, 'l': 8, 'u16': 2}

class Session:
    """symbolic state of one contract check"""
    def __init__(s, mods, params, contracts=None, pins=None, setup=None):
        s.ex = Exec(mods, contracts); s.params = params; s.a = {}; s.fams = {}; s.facts = []; s.args = []; s.pins = pins or {}; s.t0 = s.ex.time
        for p in params:
            if isinstance(p, Int):
                if p.name in s.pins: v = ic(s.pins[p.name])
                else:
                    v = ivar(p.name)
                    if p.lo is not None: s.facts.append(le(ic(p.lo), v)); v.rng = (max(v.rng[0], p.lo), v.rng[1]) if v.rng else (p.lo, (1 << 31)-1)
                    if p.hi is not None: s.facts.append(le(v, ic(p.hi))); v.rng = (v.rng[0], min(v.rng[1], p.hi))
                s.a[p.name] = v
            elif isinstance(p, Dbl): s.a[p.name] = dvar(p.name) if p.val is None else dc(Fraction(p.val))
            elif isinstance(p, Arr):
                f = Fam(p.name); s.fams[p.name] = f
                s.a[p.name] = ptr(f)
                ch = f
                for _ in p.dims[:-1]: ch.S = 8; ch.ctype = lambda r: 'p'; ch = ch.child(0); 
                ch.S = SZ[p.ty]; ch.ctype = lambda r: 'v'
                if p.ty in ('i', 'uc') and (p.lo is not None or p.hi is not None):
                    ch.rngs[0] = (p.lo if p.lo is not None else -(1 << 31), p.hi if p.hi is not None else (1 << 31)-1)
                if p.contig: ch.contig = p
            elif isinstance(p, Alias): s.a[p.name] = s.a[p.of]
            elif isinstance(p, Null): s.a[p.name] = NULL
            elif isinstance(p, Other): s.a[p.name] = None
        for p in params:
            if isinstance(p, Other): s.a[p.name] = p.make(s)
            s.args.append(s.a[p.name])
        for nm, f, d in families(s):
            if isinstance(f.contig, Arr): f.contig = s.dim(f.contig.dims[-1])
        if setup: setup(s)
        s.ex.facts = list(s.facts)
        s.ex.solver = solve.make_solver(s.facts)
        s.t0 = s.ex.time
    def dim(s, d):
        if callable(d): return d(s)
        if isinstance(d, str): return s.a[d]
        if isinstance(d, int): return ic(d)
        return d
    def P(s, name):
        for p in s.params:
            if p.name == name: return p
    def cell(s, name, idx, time=None, g=TRUE):
        """value of name[idx...] (time: None = now, t0 = on entry)"""
        p = s.P(name); q = s.a[name]; idx = [i if isinstance(i, T) else ic(i) for i in idx]
        for i in idx[:-1]: q = s.ex.load(s.ex.padd(q, scale(8, i)), ir.PTR, g, time)
        return s.ex.load(s.ex.padd(q, scale(SZ[p.ty], idx[-1])), TYS[p.ty], g, time)
    def data(s, name):
        """the family of the elements of a parameter"""
        f = s.fams[name]
        for _ in s.P(name).dims[:-1]: f = f.child(0)
        return f
    def v(s, name, *idx): 
        if not idx: return s.a[name]
        return s.cell(name, idx, s.t0)
    def out(s, name, *idx): return s.cell(name, idx, None)

class Contract:
    def __init__(s, fn, params, ensures=(), requires=None, contracts=None, shapes=(), note='', ret=None, setup=None, replay=True, real_ranges=None, extra=None, kinds=None):
        s.kinds = kinds
        """ensures: list of (param, n_index, lambda S, *idx: (cond, value))"""
        s.fn, s.params, s.ensures, s.requires, s.contracts, s.shapes = fn, params, ensures, requires, contracts or {}, shapes
        s.note = note; s.ret = ret; s.setup = setup; s.replay = replay; s.real_ranges = real_ranges; s.extra = extra

def families(S):
    """all (root parameter, family) reachable from the parameters"""
    out = []
    def go(nm, f, d):
        out.append((nm, f, d))
        for c in list(f.children.values()): go(nm, c, d+1)
    for nm, f in S.fams.items(): go(nm, f, 1)
    return out

def sampler_for(S, C):
    rr = C.real_ranges or {}
    P = {p.name: p for p in C.params}
    def ranges(pt, t, name, args):
        base = str(name).split('.')[0]
        if C.kinds and t.s == 'd':
            from . import mat
            r = mat.point_atom(C.kinds)(pt, base.split('@')[0], name, args)
            if r is not None: return r
        p = P.get(base)
        if t.s == 'd':
            lo, hi = None, None
            if base in rr: lo, hi = rr[base]
            elif p is not None and getattr(p, 'lo', None) is not None: lo, hi = p.lo, p.hi
            if lo is not None: return pt.rreal((name,) + tuple(args), Fraction(lo), Fraction(hi))
        if t.s == 'i' and isinstance(p, Int) and p.small: return pt.rint((name,), *p.small)
        if t.s == 'i' and isinstance(p, Int): 
            lo, hi = rng(t); lo = max(lo, 0); return pt.rint((name,), lo, min(hi, lo + 3))
        if t.s == 'i' and str(name).startswith('ix:'): return pt.rint((name,), 0, 3)
        return None
    def mkp(seed): return Point(seed, pins={}, ranges=ranges)
    return mkp

def check_contract(ctx, mods, C, pins=None):
    """generate and discharge all obligations of one contract; returns list of (name, Result, info)"""
    res = []
    S = Session(mods, C.params, C.contracts, pins, C.setup)
    ex = S.ex
    if C.fn not in ex.funcs: raise Unsupported('no function ' + C.fn)
    g = TRUE
    pre = TRUE
    if C.requires:
        for q in C.requires(S): 
            if type(q) is tuple: S.facts.append(q)
            else: S.facts.append(q)
    for f in S.facts:
        if type(f) is not tuple: pre = and_(pre, f)
    ex.facts = list(S.facts); ex.solver = solve.make_solver(S.facts)
    F = ex.funcs[C.fn]
    if len(F.params) != len(C.params): raise Unsupported('parameter list of %s changed' % C.fn)
    for (nm, ty, bv), p in zip(F.params, C.params):
        k = ty.k
        if isinstance(p, Alias): p = S.P(p.of)
        want = 'i' if isinstance(p, Int) else 'double' if isinstance(p, Dbl) else 'ptr'
        if not isinstance(p, Other) and k != want: raise Unsupported('parameter types of %s changed' % C.fn)
    # vacuity guard: the precondition is satisfiable
    if solve.z3_check([pre], [f for f in S.facts if type(f) is tuple], 5000) == 'unsat': raise Unsupported('contradictory precondition')
    rv = S.rv = ex.exec_function(F, S.args, pre)
    smp = sampler_for(S, C)
    tag = C.fn + ('' if not pins else str(sorted(pins.items())))
    info = dict(fn=C.fn, S=S, C=C, pins=pins)
    def add(name, r, **kw): res.append((tag + ': ' + name, r, dict(info, **kw)))
    # null / undefined dereferences
    for gg, inst in ex.derefnull:
        add('no null pointer dereference', prove.prove(not_(gg), pre, S.facts, sampler=smp, seed=ctx.seed)); break
    for gg in ex.dead:
        add('no abort', prove.prove(not_(gg), pre, S.facts, sampler=smp, seed=ctx.seed)); break
    ens = {}
    for e in C.ensures: ens.setdefault(e[0], []).append(e)
    for p in C.params:
        if not isinstance(p, Arr): continue
        nd = len(p.dims)
        idx = [ivar('ix:%s%d' % (p.name, j), -(1 << 31), (1 << 31) - 1) for j in range(nd)]
        fam = S.fams[p.name]; touched = False
        for nm, f, d in families(S):
            if nm == p.name and f.log: 
                touched = True
                if d != nd: raise Unsupported('pointer table of %s rewritten' % nm)
        for z, e in enumerate(ens.get(p.name, ())):
            cond, val = e[2](S, *idx); idx0 = idx
            if len(e) > 3: idx, cond, val = e[3](S, *idx)        # the same cells under another numbering
            gg = and_(pre, cond)
            if gg is FALSE or val is None: idx = idx0; continue        # None: scratch cells, any value
            fin = S.cell(p.name, idx, None, gg)
            add('%s[%s]' % (p.name, ', '.join('*'*nd)), prove.prove_eq(fin, val, gg, S.facts, ctx.seed, sampler=smp), out=p.name, idx=idx, spec=val, fin=fin, cond=cond)
            idx = idx0
        if touched:
            rest = pre
            for e in ens.get(p.name, ()): rest = and_(rest, not_(e[2](S, *idx)[0]))
            fin = S.cell(p.name, idx, None, rest); ini = S.cell(p.name, idx, S.t0, rest)
            add('frame of %s' % p.name, prove.prove_eq(fin, ini, rest, S.facts, ctx.seed, sampler=smp), out=p.name, idx=idx, spec=ini, fin=fin, cond=rest)
    for nm, r in ex.invobl.values(): add(nm, r)
    # writes to globals
    for k, f in ex.globs.items():
        if f.log: add('no write to global state', prove.Result(False, 'frame', str(k)))
    if C.ret is not None:
        add('return value', prove.prove_eq(rv, C.ret(S), pre, S.facts, ctx.seed, sampler=smp), ret=True, spec=C.ret(S), fin=rv)
    if C.extra:
        for name, r in C.extra(ctx, S, rv, pre, smp): add(name, r)
    if not res: raise Unsupported('no obligations generated')
    ctx.stat(ex)
    return res

# ---------------------------------------------------------------- replay on the real code
def concrete(S, C, p, info):
    """concrete argument values at point p"""
    vals = {}
    for prm in C.params:
        if isinstance(prm, Int): vals[prm.name] = int(p.val(S.a[prm.name]))
        elif isinstance(prm, Dbl): vals[prm.name] = float(p.val(S.a[prm.name]))
        elif isinstance(prm, (Null, Alias)): vals[prm.name] = None
        elif isinstance(prm, Arr):
            gc = 0 if prm.contig else 2
            dims = [int(p.val(S.dim(d))) + (2 if j < len(prm.dims) - 1 else gc) for j, d in enumerate(prm.dims)]     # guard cells on every level
            if any(d > 64 for d in dims): raise ValueError('too large')
            def build(pre, ds):
                if len(ds) == 0:
                    x = p.val(S.cell(prm.name, [ic(i) for i in pre], S.t0))
                    return float(x) if prm.ty == 'd' else int(x)
                return [build(pre + [i], ds[1:]) for i in range(ds[0])]
            vals[prm.name] = build([], dims)
        else: raise ValueError('cannot concretise ' + prm.name)
    return vals

def run_native(fn, C, vals, outs):
    lib = native.library()
    def go():
        L = ctypes.CDLL(lib)
        args = []; arrs = {}
        for prm in C.params:
            if isinstance(prm, Int): args.append(ctypes.c_long(vals[prm.name]))
            elif isinstance(prm, Dbl): args.append(ctypes.c_double(vals[prm.name]))
            elif isinstance(prm, Null): args.append(ctypes.c_void_p(0))
            elif isinstance(prm, Alias): args.append(arrs[prm.of].addr() if prm.of in arrs else ctypes.c_long(vals[prm.of]))
            else:
                a = native.Arr(vals[prm.name], prm.ty, len(prm.dims), prm.contig); arrs[prm.name] = a; args.append(a.addr())
        f = getattr(L, fn)
        if C.ret is not None and getattr(C, 'rett', 'd') == 'd': f.restype = ctypes.c_double
        r = f(*args)
        return [r if o is None else arrs[o[0]].read(o[1]) for o in outs]
    return native.forked(go)

def confirm(name, r, info, ctx):
    """-> ('confirmed', data) | ('refuted', data) | ('none', why)"""
    S, C = info['S'], info['C']
    if not C.replay or r.point is None: return 'none', 'no concrete input'
    p = r.point
    try:
        vals = concrete(S, C, p, info)
        if info.get('ret'): outs = [None]; idx = None
        elif 'out' in info:
            idx = tuple(int(p.val(i)) for i in info['idx'])
            prm = S.P(info['out']); dims = [int(p.val(S.dim(d))) for d in prm.dims]
            if any(not 0 <= i < d + 2 for i, d in zip(idx, dims)):
                return 'none', 'cell %s%s lies outside the array' % (info['out'], list(idx))
            outs = [(info['out'], idx)]
        else: return 'none', 'no output cell'
        want = p.val(info['spec'])
        st, got = run_native(info['fn'], C, vals, outs)
    except Exception as e: return 'none', 'replay not possible: %r' % (e,)
    data = dict(function=info['fn'], inputs=vals, cell=[info.get('out'), idx], expected=float(want) if want is not None else None, status=st, got=got)
    if st == 'signal': return 'confirmed', data
    if st != 'ok': return 'none', 'replay %s %s' % (st, got)
    w, gt = float(want), float(got[0])
    if gt != gt: return 'none', 'not a number'
    if abs(w - gt) > 1e-7*max(1., abs(w), abs(gt)): return 'confirmed', data
    return 'refuted', data
