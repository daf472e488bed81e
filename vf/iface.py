"""Contracts of functions that work on a handle (programming interface)."""
import time
from .terms import *
from . import terms as TM
from . import build, ir, sym, solve, prove
from .sym import Exec, Fam, Unsupported
from .contract import Arr, Int, Dbl, Null, Other, Session, SZ, TYS
from .structs import Struct, base_type, BT
from . import structs
from .handle import Handle, DIMS, K, NPARAMS
from .solve import Point

def frame_only(*fields):
    """contract of a callee that may change only the named arrays (checked separately)"""
    def h(ex, g, args, I): return None
    return h

class Api:
    """contract of one interface function.
    params: the parameters after the handle; ok(S): the call is accepted;
    eff: [(field, n_index, lambda S, *ix: (cond, value))] what an accepted call stores; everything else is unchanged;
    value(S) result of an accepted call (default 0); err: 'i' or 'd' the documented error status;
    outs: [(param, n_index, lambda S,*ix: (cond, value))]; deps: input names whose dependents must be marked; lo/hi: layer range"""
    def __init__(s, fn, params, ok=None, eff=(), value=None, err='i', outs=(), deps=None, lo=None, hi=None, requires=None, custom=None, dims=None, own=(), errs=None, contracts=None, free=(), split=None, slow=False, handle=None, dimtab=None):
        s.handle = handle or Handle; s.dimtab = dimtab if dimtab is not None else DIMS; s.fn, s.params, s.ok, s.eff, s.value, s.err, s.outs, s.deps, s.lo, s.hi, s.requires = fn, params, ok, eff, value, err, outs, deps, lo, hi, requires
        s.free = free; s.split = split; s.slow = slow; s.custom = custom; s.dims = dims; s.own = own; s.errs = errs; s.contracts = contracts

class S_(Session):
    """session with a handle as first parameter"""
    def __init__(s, mods, api, contracts=None, fix=None):
        s.H = None
        def mkd(S):
            S.H = api.handle(S.ex); return S.H.d.base
        super().__init__(mods, [Other('d', mkd)] + list(api.params), contracts)
        H = s.H
        H.setup_umus()
        for fld, v in (fix or {}).items():
            s.ex.store(H.d.addr(fld), ir.I32, ic(v), TRUE)
            if fld == 'n_stokes':
                for a in ('quad', 'umus'): s.ex.store(H.d.addr('n_%s_v' % a), ir.I32, scale(v, H.d.get(s.ex, 'n_' + a)), TRUE)
        s.t0 = s.ex.time; H.freeze()
        for fm in (H.d.fam,): pass
        for p in api.params:
            if isinstance(p, Arr) and p.null: s.fams[p.name].nullable = True; s.fams[p.name].nullname = p.name
        s.f = H.f; s.opt = H.opt; s.sol = H.sol; s.now = H.now
    def isnull(s, name): return s.fams[name].isnull(())

def depmask(S, names):
    m = 0
    for n in names: m |= K()['DEP_MASK_' + n]
    return m

def set_deps_contract(S):
    def h(ex, g, args, I):
        d, dep, lo, n = args
        ex.events.append(('deps', g, dep, lo, n)); return None
    return h
def name_contract(ex, g, args, I):
    return ptr(Fam('text'))

def sampler(S, api):
    """random points: small sizes, plausible flags"""
    small = {'n_layers': (1, 4), 'n_quad': (1, 4), 'n_derivs': (0, 3), 'n_umus': (0, 3), 'n_ulevels': (1, 3), 'n_kernels': (0, 3), 'n_coef': (0, 5), 'n_coef2': (0, 5), 'n_four': (1, 4), 'n_stokes': (1, 4), 'n_kernel_quad': (0, 3), 'n_elem': (1, 6)}
    P = {p.name: p for p in api.params}
    def ranges(pt, t, name, args):
        nm = str(name)
        base = nm.split('.')[-1 if nm.startswith('d.d.') else 1] if nm.startswith('d.') and nm.count('.') >= 1 else nm.split('.')[0]
        if t.s == 'i' and base in small: return pt.rint((name,) + tuple(args), *small[base])
        if t.s == 'i' and base.startswith('set_flags'): return pt.rint((name,) + tuple(args), 0, 1)
        if t.s == 'i' and base == 'inputs_initialized': return pt.rint((name,) + tuple(args), 0, 1)
        if t.s == 'i' and base == 'kernels': return pt.rint((name,) + tuple(args), 0, 10)
        if t.s == 'i' and base in ('n_coef_layer', 'n_coef_layer2'): return pt.rint((name,) + tuple(args), 0, 3)
        if t.s == 'i' and isinstance(P.get(nm), Int): return pt.rint((name,), -1, 4)
        if t.s == 'i' and nm.startswith('ix:'): return pt.rint((name,), 0, 3)
        if t.s == 'i' and base in P: return pt.rint((name,) + tuple(args), -1, 5)
        return None
    return lambda seed: Point(seed, pins={}, ranges=ranges)

def run(ctx, mods, api, what, contracts=None, fix=None):
    """generate and discharge; what: subset of {'effect', 'error', 'bounds', 'deps'} -> [(name, Result)]"""
    from .prop import Ctx
    S = None
    cs = {'set_deps': None, 'xrtm_input_index_to_name': name_contract, 'xrtm_option_mask_to_name': name_contract, 'xrtm_solver_mask_to_name': name_contract, 'xrtm_kernel_code_to_name': name_contract, 'xrtm_output_mask_to_name': name_contract}
    cs.update(contracts or {})
    for f, c in (api.contracts or {}).items(): cs[f] = c
    S = S_(mods, api, {k: v for k, v in cs.items() if v is not None}, fix)
    ex = S.ex; H = S.H
    ex.contracts['set_deps'] = set_deps_contract(S)
    F = ex.funcs.get(api.fn)
    if F is None: raise Unsupported('no function ' + api.fn)
    if len(F.params) != len(api.params) + 1: raise Unsupported('parameter list of %s changed' % api.fn)
    S.facts = H.wf() + (list(api.requires(S)) if api.requires else [])
    pre = TRUE
    for f in S.facts:
        if type(f) is not tuple and f.op in ('le0', 'eq0', 'not', 'app'): pre = and_(pre, f)     # the disjunctive facts are given to the provers only
    ex.facts = list(S.facts); ex.solver = solve.make_solver(S.facts)
    if solve.z3_check([pre] + [f for f in S.facts if type(f) is not tuple], [f for f in S.facts if type(f) is tuple], 5000) == 'unsat': raise Unsupported('contradictory precondition')
    ex.reads = []; ex.writes = []
    rv = ex.exec_function(F, S.args, pre)
    reads, writes = ex.reads, ex.writes; ex.reads = ex.writes = None
    smp = sampler(S, api)
    qf = [f for f in S.facts]
    out = []
    def P(name, c, g): out.append((api.fn + ': ' + name, prove.prove(c, g, qf, sampler=smp, seed=ctx.seed)))
    def EQ(name, a, b, g): out.append((api.fn + ': ' + name, prove.prove_eq(a, b, g, qf, ctx.seed, sampler=smp)))
    S.rv = rv; S.pre = pre
    ok = api.ok(S) if api.ok else TRUE
    okg = and_(pre, ok); bad = and_(pre, not_(ok))
    void = F.ret.k == 'void' if hasattr(F, 'ret') else rv is None
    if 'flags' in what: what = set(what) | {'effect', 'error'}; only = lambda fn: not callable(fn) and (fn.startswith('set_flags') or fn in ('inputs_initialized', 'varied_layers_updated'))
    else: only = None
    if not void and rv is not None and api.err is not None and not only:
        if 'effect' in what:
            v = api.value(S) if api.value else ZERO
            EQ('result of an accepted call', rv, v, okg)
        if 'error' in what and bad is not FALSE:
            e = ic(K()['XRTM_INT_ERROR']) if rv.s == 'i' else NULL if rv.s == 'p' else None
            if rv.s == 'd': 
                import sys as _s
                e = dc(Fraction(-_s.float_info.max))
            EQ('error status of a refused call', rv, e, bad)
    # what changed
    def touched():
        res = {}
        def go(f):
            if f.log: res[f] = True
            for c in f.children.values(): go(c)
        go(H.d.fam)
        return list(res)
    eff = {}
    for e in api.eff: eff.setdefault(e[0], []).append(e)
    cells = {}
    def cell(field, idx, time, g):
        if callable(field): return field(S, idx, time, g)
        return H.d.get(ex, field, *idx, time=time, g=g)
    fields = set(eff)
    for fam in touched():
        r = H.field_of(fam)
        if r is None: raise Unsupported('writes to an unknown object')
        fn, depth = r
        if fn in getattr(H, 'frozen', ()):
            out.append((api.fn + ': %s is not modified' % fn, prove.Result(False, 'frame', 'the function writes to an object it may only read'))); continue
        if depth == 0:
            for e in fam.log:
                if e.time <= S.t0: continue
                if e.kind != 'st' or e.off.op != 'c': raise Unsupported('bulk write to the handle')
                nm = fam.ctype(e.off.a[0]); fields.add(nm)
        elif depth > 0:
            full = H.d.fl[fn.split('[')[0]][1].count('*')
            if depth != full: raise Unsupported('pointer table of %s rewritten' % fn)
            fields.add(fn)
    for fn in sorted(fields, key=str):
        if not callable(fn) and fn.startswith('dep_flags'): continue
        if fn in api.own: continue
        if only and not only(fn): continue
        if callable(fn): nd = eff[fn][0][1]
        elif fn in H.d.fl: nd = H.d.fl[fn][1].count('*')
        else: raise Unsupported('write to field ' + str(fn))
        if nd and not callable(fn):
            b = base_type(H.d.fl[fn][1])[0]
            if b not in BT: continue     # records: only through explicit cell functions
        idx = [ivar('ix:%s%d' % (fn if not callable(fn) else fn.__name__, j)) for j in range(nd)]
        lab = fn if not callable(fn) else fn.__name__
        rest = okg
        for e in eff.get(fn, ()):
            cond, val = e[2](S, *idx)
            gg = and_(okg, cond)
            if gg is FALSE: continue
            if 'effect' in what: EQ('%s%s stored' % (lab, '[*]'*nd), cell(fn, idx, None, gg), val, gg)
            rest = and_(rest, not_(cond))
        if 'effect' in what and rest is not FALSE and fn not in api.free: EQ('%s%s otherwise unchanged' % (lab, '[*]'*nd), cell(fn, idx, None, rest), cell(fn, idx, S.t0, rest), rest)
        if 'error' in what and bad is not FALSE: EQ('%s%s unchanged by a refused call' % (lab, '[*]'*nd), cell(fn, idx, None, bad), cell(fn, idx, S.t0, bad), bad)
    # output arrays
    P_ = {p.name: p for p in api.params}
    for nm, n, fnc in api.outs if not only else ():
        idx = [ivar('ix:%s%d' % (nm, j)) for j in range(n)]
        cond, val = fnc(S, *idx); gg = and_(okg, cond)
        if 'effect' in what:
            EQ('%s%s returned' % (nm, '[*]'*n), S.cell(nm, idx, None, gg), val, gg)
            rest = and_(okg, not_(cond))
            EQ('%s%s nothing else written' % (nm, '[*]'*n), S.cell(nm, idx, None, rest), S.cell(nm, idx, S.t0, rest), rest)
        if 'error' in what and bad is not FALSE:
            EQ('%s%s untouched by a refused call' % (nm, '[*]'*n), S.cell(nm, idx, None, bad), S.cell(nm, idx, S.t0, bad), bad)
    if only: ctx.stat(ex); return out
    outn = {o[0] for o in api.outs}
    for nm, f in S.fams.items():
        if nm in outn: continue
        if f.log or any(c.log for c in f.children.values()): out.append((api.fn + ': argument %s not modified' % nm, prove.Result(False, 'frame', 'the function writes through its argument ' + nm)))
    for k, f in ex.globs.items():
        if f.log: out.append((api.fn + ': no write to global state', prove.Result(False, 'frame', str(k))))
    if 'error' in what:
        for gg, inst in ex.derefnull[:1]: P('no null pointer dereference', not_(orl(x for x, _ in ex.derefnull)), pre)
        for gg in ex.dead[:1]: P('no abort', not_(orl(ex.dead)), pre)
    if 'bounds' in what:
        acc = {}
        for (fam, path2, r, size, path, off, g, tm) in reads: acc.setdefault(fam, []).append((path2, r, g, 'read'))
        for e in writes: acc.setdefault(e.fam, []).append((e.path, e.off, e.guard, 'write'))
        argroot = {}
        for p in api.params:
            if isinstance(p, Arr):
                f = S.fams[p.name]; d = 1
                while True:
                    argroot[f] = (p, d)
                    if 0 not in f.children: break
                    f = f.children[0]; d += 1
        for fam, xs in acc.items():
            r = H.field_of(fam)
            conds = []
            if r is not None and r[1] > 0:
                fn, depth = r; fn0 = fn
                if fn not in api.dimtab:
                    if fn in ('umus', 'umus_v'): continue
                    out.append((api.fn + ': access to %s' % fn, prove.Result(None, 'undecided', 'no dimensions known for ' + fn))); continue
                gd, dims = api.dimtab[fn]
                ext = H.cond(gd); dm = [H.dim(x) for x in dims]; lab = fn
            elif fam in argroot:
                p, depth = argroot[fam]; ext = TRUE; dm = [S.dim(x) for x in p.dims]; lab = p.name
            else: continue
            for path2, rr, g, kind in xs:
                if path2 is None: raise Unsupported('bulk access to ' + lab)
                ix = path2[-depth:]
                c = ext
                for i, n in zip(ix, dm[:depth]): c = and_(c, and_(le(ZERO, i), lt(i, n)))
                conds.append((g, c))
            bad_ = FALSE
            for g, c in conds: bad_ = or_(bad_, and_(g, not_(c)))
            P('accesses to %s stay inside the array' % lab, not_(bad_), pre)
    if 'deps' in what and api.deps:
        evs = [e for e in ex.events if e[0] == 'deps']
        l = ivar('ix:layer', 0); lo = api.lo(S) if api.lo else ZERO; hi = api.hi(S) if api.hi else S.f('n_layers')
        for grp, dcond in api.deps:
            c0 = and_(okg, and_(dcond(S) if dcond else TRUE, and_(le(lo, l), lt(l, hi))))
            for nm in grp:
                m = K()['DEP_MASK_' + nm]; b = m.bit_length() - 1
                hit = FALSE
                for _, g, dep, a, n in evs: hit = or_(hit, and_(g, and_(bit(dep, b), and_(le(a, l), lt(l, n)))))
                P('dependents of %s marked' % nm, hit, c0)
    if api.custom: out += [(api.fn + ': ' + n, r) for n, r in api.custom(ctx, S, rv, pre, ok, smp, what)]
    ctx.stat(ex)
    return out

def check_all(ctx, mods, A, what):
    items = []
    for a in A: items += [(a, {a.split[0]: v}) for v in a.split[1]] if a.split else [(a, None)]
    items.sort(key=lambda x: (0 if x[1] or x[0].slow else 1))
    ctx.par(items, lambda c, x: check(c, mods, x[0], what, fix=x[1]))
def check(ctx, mods, api, what, contracts=None, fix=None):
    import os, traceback
    t = time.time()
    nm = api.fn
    try:
        if fix: nm = '%s [%s]' % (api.fn, ', '.join('%s = %d' % x for x in fix.items()))
        rs = [(n.replace(api.fn, nm, 1), r) for n, r in run(ctx, mods, api, what, contracts, fix)]
    except (Unsupported, solve.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, prove.OutOfTime) as e:
        if os.environ.get('VF_TRACE'): traceback.print_exc()
        ctx.undecided(nm, '%s: %s' % (type(e).__name__, e)); return
    for n, r in rs: ctx.result(n, r)
    if os.environ.get('VF_TIME'): print('%-40s %.2fs %d obligations' % (api.fn, time.time()-t, len(rs)))
