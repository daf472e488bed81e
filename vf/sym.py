"""Symbolic execution of LLVM IR by guarded-command linearisation, with inductive loop summaries.

Every block of the (loop-collapsed) control-flow graph is executed once, in topological order, under its path
condition; stores go to per-object logs together with that condition; loads are resolved against the logs.
Loops with a literal trip count are executed; other loops are summarised: induction variables get closed forms,
accumulators become sums/quantifiers, stores become quantified stores, after an independence check between
iterations.  Whatever does not fit raises Unsupported -- nothing is approximated silently."""
from .terms import *
from . import terms as TM
from . import ir
from .ir import Ty

class Unsupported(Exception): pass
TRACE = False

def unit(n):
    """f*v -> (v, f)"""
    if n.op == 'lin':
        c, d = lin(n)
        if c == 0 and len(d) == 1: (v, f), = d.items(); return v, f
    return n, 1

class Fam:
    """a family of memory objects (indexed by path)"""
    n = 0
    def __init__(s, name, S=None, fresh=False, nullable=False, flat=None, zero=False, parent=None):
        Fam.n += 1
        s.id = Fam.n; s.name = name; s.S = S; s.fresh = fresh; s.nullable = nullable; s.flat = flat; s.zero = zero
        s.children = {}; s.log = []; s.idx = {}; s.wild = []; s.init = None; s.parent = parent; s.const = False
        s.size = None; s.dims = None; s.kindmap = None; s.ctype = None; s.childinit = None; s.rngs = {}; s.alloc_guard = TRUE; s.freed = []; s.contig = None; s.scratch = False
    def __repr__(s): return 'Fam(%s)' % s.name
    def isnull(s, path):
        if not s.nullable: return FALSE
        if s.nullable is True: return mk('app', ('isnull:' + s.name,) + tuple(path), 'b')
        return s.nullable(path)
    def child(s, r):
        c = s.children.get(r)
        if c is None:
            nm = '%s@%s' % (s.name, r) if s.ctype is None else '%s.%s' % (s.name, s.ctype(r))
            c = s.children[r] = Fam(nm, parent=s)
            if s.childinit: s.childinit(c, r)
        return c

class Ent:
    __slots__ = ('kind', 'guard', 'path', 'off', 'size', 'val', 'time', 'fam', 'rawpath', 'rawoff', 'qv', 'inst', 'ty')
    def __init__(s, kind, guard, path, off, size, val, ty=None):
        s.kind, s.guard, s.path, s.off, s.size, s.val, s.ty = kind, guard, path, off, size, val, ty
        s.qv = (); s.inst = None
    def __repr__(s): return '<%s %s%s +%s = %s if %s>' % (s.kind, s.fam.name, [str(x) for x in s.path or ()], s.off, s.val, s.guard)

def sort_of(ty):
    k = ty.k
    if k == 'i': return 'b' if ty.a == 1 else 'i'
    if k in ('double', 'float', 'x86_fp80'): return 'd'
    if k == 'ptr': return 'p'
    raise Unsupported('type %r' % ty)

class Edge:
    __slots__ = ('g', 'phis')
    def __init__(s, g, phis): s.g, s.phis = g, phis

class Loop:
    def __init__(s, header): s.header = header; s.blocks = set(); s.latches = []; s.parent = None; s.children = []

def analyse(F):
    """dominators, natural loops"""
    if getattr(F, 'ana', None): return F.ana
    ir.func_blocks(F)
    order = []; seen = set()
    def dfs(b0):
        st = [(b0, iter(F.blocks[b0].succs))]; seen.add(b0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(F.blocks[s].succs))); break
            else:
                order.append(b); st.pop()
    dfs(F.entry)
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in F.blocks[b].succs: preds[s].append(b)
    idom = {F.entry: F.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == F.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in F.blocks[b].succs:
            if num[s] <= num[b]:
                if not dominates(s, b): raise Unsupported('irreducible control flow in ' + F.name)
                L = loops.setdefault(s, Loop(s)); L.latches.append(b)
                st = [b]; L.blocks.add(s)
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st += preds[x]
    ls = sorted(loops.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(ls):
        for M in ls[i+1:]:
            if L.header in M.blocks and M is not L:
                L.parent = M; M.children.append(L); break
    inner = {}
    for L in ls:
        for b in L.blocks:
            if b not in inner: inner[b] = L
    F.ana = (rpo, num, preds, idom, loops, inner)
    return F.ana

class Region:
    """the collapsed DAG of a function body or of a loop body"""
    def __init__(self, F, L):
        rpo, num, preds, idom, loops, inner = analyse(F)
        self.F, self.L = F, L
        blocks = [b for b in rpo if (L is None or b in L.blocks)]
        self.node = {}           # block -> node (block name, or Loop)
        kids = [M for M in loops.values() if M.parent is L]
        for M in kids:
            for b in M.blocks: self.node[b] = M
        for b in blocks:
            if b not in self.node: self.node[b] = b
        self.entry = L.header if L else F.entry
        self.order = []; seen = set()
        succ = {}
        for b in blocks:
            nd = self.node[b]
            ss = succ.setdefault(nd, [])
            for s in F.blocks[b].succs:
                if L is not None and (s not in L.blocks or s == L.header):
                    if '$' not in ss: ss.append('$')
                    continue
                t = self.node[s]
                if t is nd: continue
                if t not in ss: ss.append(t)
            if F.blocks[b].term.op == 'ret' and '$' not in ss: ss.append('$')
        # topological order (DAG)
        seen = set(); out = []
        def visit(n0):
            st = [(n0, iter(succ.get(n0, ())))]; seen.add(n0)
            while st:
                n, it = st[-1]
                for s in it:
                    if s != '$' and s not in seen: seen.add(s); st.append((s, iter(succ.get(s, ())))); break
                else: out.append(n); st.pop()
        visit(self.node[self.entry])
        self.order = out[::-1]
        # nodes that can reach the sink
        live = set(); ch = True
        pr = {}
        for n in self.order:
            for s in succ[n]: pr.setdefault(s, []).append(n)
        st = ['$']
        while st:
            x = st.pop()
            for p in pr.get(x, ()):
                if p not in live: live.add(p); st.append(p)
        self.live = live
        # post-dominators on live nodes
        pos = {n: i for i, n in enumerate(self.order)}; pos['$'] = len(self.order)
        ip = {'$': '$'}
        for n in reversed(self.order):
            if n not in live: continue
            new = None
            for s in succ[n]:
                if s != '$' and s not in live: continue
                if new is None: new = s
                else:
                    x, y = s, new
                    while x != y:
                        if pos[x] < pos[y]: x = ip[x]
                        else: y = ip[y]
                    new = x
            ip[n] = new
        self.ipdom = ip
        # dominators on the DAG
        idm = {self.order[0]: None}
        for n in self.order[1:]:
            new = None
            for p in pr.get(n, ()):
                if p not in idm: continue
                if new is None: new = p
                else:
                    x, y = p, new
                    while x != y:
                        if pos[x] > pos[y]: x = idm[x]
                        else: y = idm[y]
                        if x is None or y is None: x = y = self.order[0]
                    new = x
            idm[n] = new
        self.idm = idm
        # guard source: nearest dominator d with n on its post-dominator chain
        self.gsrc = {}
        for n in self.order[1:]:
            d = idm[n]; src = None
            while d is not None:
                x = ip.get(d); hit = False
                while x is not None and x != '$' and pos[x] <= pos[n]:
                    if x == n: hit = True; break
                    x = ip.get(x)
                if hit: src = d
                else: break
                break
            if src is not None: self.gsrc[n] = src

def region(F, L):
    rc = getattr(F, 'regions', None)
    if rc is None: rc = F.regions = {}
    k = L.header if L else None
    if k not in rc: rc[k] = Region(F, L)
    return rc[k]

class Exec:
    def __init__(self, mods, contracts=None, externs=None, unroll=2000):
        self.mods = mods; self.funcs = {}
        for M in mods:
            for n, f in M.funcs.items():
                f.mod = M
                if not f.internal or n not in self.funcs: self.funcs.setdefault(n, f) if f.internal else self.funcs.__setitem__(n, f)
        self.contracts = dict(contracts or {}); self.time = 0
        self.globs = {}; self.facts = []; self.dead = []; self.trail = []; self.stack = []
        self.unroll = unroll; self.reads = None; self.writes = None; self.nfresh = 0; self.allocs = []; self.events = []
        self.called = set(); self.loops_summarised = 0; self.loops_unrolled = 0; self.uninit = []; self.solver = None; self.derefnull = []
        self.steps = 0; self.step_limit = 5000000; self.assume_args_nonnull = True
        self.trunc_assumed = False; self.recur = {}; self.invobl = {}

    # ---------------------------------------------------------------- memory
    def norm(self, fam, path, off, size):
        """-> (path', residue)"""
        if fam.flat is not None:
            c, d = lin(off)
            S = fam.S or 8
            n = fam.flat
            if n.op == 'c':
                if any(k % S for k in d.values()) or c % S: raise Unsupported('misaligned access')
                e = mklin(c//S, {t: k//S for t, k in d.items()})
                return path + (e,), ZERO
            row, col = {}, {}; rc = cc = 0
            if c % S: raise Unsupported('misaligned access to flat matrix')
            cc = c//S
            n, f = unit(n)
            for t, k in d.items():
                if k % S: raise Unsupported('misaligned access to flat matrix')
                k //= S
                if t is n and k % f == 0: rc += k//f
                elif t.op == 'mono' and n in t.a:
                    if k % f: raise Unsupported('row of a flat matrix')
                    k //= f
                    rest = list(t.a); rest.remove(n)
                    rt = rest[0] if len(rest) == 1 else mk('mono', tuple(rest), 'i')
                    row[rt] = row.get(rt, 0) + k
                else: col[t] = col.get(t, 0) + k
            return path + (mklin(rc, row), mklin(cc, col)), ZERO
        if fam.S is None: fam.S = size
        S = fam.S
        if off.op == 'c':
            v = off.a[0]; return path + (ic(v // S),), ic(v % S)
        c, d = lin(off); q = {}; r = {}
        for t, k in d.items():
            if k % S == 0: q[t] = k//S
            else: r[t] = k
        return path + (mklin(c // S, q),), mklin(c % S, r)

    def _push(self, fam, e):
        self.time += 1; e.time = self.time; e.fam = fam
        fam.log.append(e)
        if e.kind == 'st' and not e.qv and e.off.op == 'c' and all(x.op == 'c' for x in e.path):
            fam.idx.setdefault((e.path, e.off.a[0]), []).append(e)
        else: fam.wild.append(e)
        self.trail.append(fam)
        if self.writes is not None: self.writes.append(e)
    def mark(self): return len(self.trail)
    def rollback(self, m):
        while len(self.trail) > m:
            fam = self.trail.pop(); e = fam.log.pop()
            if e.kind == 'st' and not e.qv and e.off.op == 'c' and all(x.op == 'c' for x in e.path): fam.idx[(e.path, e.off.a[0])].pop()
            else: fam.wild.pop()

    kstack = ()
    opaque = False        # guard mode: floating-point memory and loop-carried pointers are not tracked (any value)
    def anyval(self, ty):
        from .loops import sort_of_ty
        s = sort_of_ty(ty); nm = self.fresh('ANY')
        if s == 'p': return ptr(Fam(nm))
        return app(nm, tuple(self.kstack), s)
    def store(self, p, ty, val, g, inst=None):
        if g is FALSE: return
        if self.opaque and (ty.k == 'double' or p.op == 'v'): return
        if self.opaque == 2 and p.op == 'ptr' and ':' in p.a[0].name: p.a[0].anyptr = True; return
        p = ite_under(p, g)
        if p.op == 'ite':
            c = p.a[0]
            self.store(p.a[1], ty, val, and_(g, c), inst); self.store(p.a[2], ty, val, and_(g, not_(c)), inst); return
        if p.op in ('null', 'undef'):
            self.derefnull.append((g, inst)); return
        if p.op != 'ptr': raise Unsupported('store through %s' % p.op)
        fam, path, off = p.a
        size = self.sizeof(ty)
        if ty.k in ('arr', 'st', 'named', 'vec'):
            raise Unsupported('aggregate store')
        path2, r = self.norm(fam, path, off, size)
        if ty.k == 'i' and ty.a == 8: val = zext(val, 8) if val.s == 'i' else ite(val, ONE, ZERO)
        if val.s == 'b': val = ite(val, ONE, ZERO)
        if fam.kindmap is not None: val = fam.kindmap(self, path2, r, val, g)
        e = Ent('st', g, path2, r, size, val, ty); e.rawpath = path; e.rawoff = off; e.inst = inst
        self._push(fam, e)

    def sizeof(self, ty):
        return self.mods[0].sizeof(ty) if ty.k != 'named' else self.findtype(ty).sizeof(ty)
    def findtype(self, ty):
        for M in self.mods:
            if ty.a in M.types: return M
        raise Unsupported('type ' + ty.a)

    def load(self, p, ty, g, time=None, inst=None):
        p = ite_under(p, g)
        if self.opaque and (ty.k == 'double' or p.op == 'v'): return self.anyval(ty)
        if self.opaque == 2 and p.op == 'ptr' and getattr(p.a[0], 'anyptr', False): return self.anyval(ty)
        if p.op == 'ite':
            c = p.a[0]
            a = self.load(p.a[1], ty, and_(g, c), time, inst); b = self.load(p.a[2], ty, and_(g, not_(c)), time, inst)
            return ite(c, a, b)
        if p.op in ('null', 'undef'):
            if g is not FALSE: self.derefnull.append((g, inst))
            return UNDEF[sort_of(ty)]
        if p.op != 'ptr': raise Unsupported('load through %s' % p.op)
        fam, path, off = p.a
        size = self.sizeof(ty)
        path2, r = self.norm(fam, path, off, size)
        if self.reads is not None and time is None: self.reads.append((fam, path2, r, size, path, off, g, self.time))
        v = self._lookup(fam, path2, r, size, path, off, ty, g, time)
        s = sort_of(ty)
        if s == 'b' and v.s == 'i': v = not_(eq0(v))
        elif s == 'i' and v.s == 'b': v = ite(v, ONE, ZERO)
        elif v.s != s and v.op == 'undef': v = UNDEF[s]
        elif s == 'p' and v is ZERO: v = NULL
        elif s == 'd' and v is ZERO: v = D0
        elif v.s != s:
            raise Unsupported('type-punned load %s as %r' % (v.op, ty))
        return v

    def candidates(self, fam, path, r):
        if r.op == 'c' and all(x.op == 'c' for x in path):
            a = fam.idx.get((path, r.a[0]), ()); b = fam.wild
            if not b: return a
            if not a: return b
            return sorted(list(a) + b, key=lambda e: e.time)
        return fam.log

    def _lookup(self, fam, path, r, size, rawpath, rawoff, ty, g, time):
        cand = self.candidates(fam, path, r)
        parts = []; rem = TRUE
        base = None
        if cand is not fam.log and r.op == 'c' and fam.idx:
            v = r.a[0]
            for dv in range(-7, size):
                if dv and (path, v+dv) in fam.idx:
                    for e in fam.idx[(path, v+dv)]:
                        if (dv < 0 and e.size > -dv) or dv > 0:
                            if time is None or e.time <= time:
                                # overlapping differently-sized store: only fine if a later full store covers it
                                if not any(e2.time > e.time and e2.guard is TRUE for e2 in cand):
                                    raise Unsupported('overlapping access in %s' % fam.name)
        gg = g
        for e in reversed(cand):
            if time is not None and e.time > time: continue
            m = self.match(e, path, r, size, rawpath, rawoff, gg)
            if m is None: continue
            c, val = m
            c = under(c, gg)
            if c is FALSE: continue
            if isinstance(val, T) and {val.s, sort_of(ty)} == {'p', 'i'} and val not in (ZERO, NULL) and self.solver is not None and self.solver(and_(c, gg)): continue     # another field
            if callable(val): val = val(ty, and_(gg, c))
            if c is TRUE:
                base = val; break
            parts.append((c, val))
            gg = and_(gg, not_(c))
            if gg is FALSE: base = val; parts.pop(); break
        if base is None: base = self.initial(fam, path, r, size, rawpath, rawoff, ty, gg, g)
        v = base
        for c, val in reversed(parts): v = ite(c, self.coerce(val, ty), self.coerce(v, ty))
        return self.coerce(v, ty)
    def coerce(self, v, ty):
        s = sort_of(ty)
        if v.s == s: return v
        if v.op == 'undef': return UNDEF[s]
        if s == 'p' and v is ZERO: return NULL
        if s == 'd' and v is ZERO: return D0
        if s == 'i' and v is D0: return ZERO
        if s == 'i' and v is NULL: return ZERO
        if s == 'b' and v.s == 'i': return not_(eq0(v))
        if s == 'i' and v.s == 'b': return ite(v, ONE, ZERO)
        if v.s == 'm': return v
        raise Unsupported('type-punned value %s -> %r' % (v.op, ty))

    def match(self, e, path, r, size, rawpath, rawoff, g):
        """-> None | (cond, value or callable(ty, g))"""
        if e.kind == 'st':
            if len(e.path) != len(path): raise Unsupported('path mismatch in ' + e.fam.name)
            if not e.qv:
                c = e.guard
                if c is FALSE: return None
                for x, y in zip(e.path, path):
                    if x is not y:
                        q = under(eq(x, y), g)
                        if q is FALSE: return None
                        c = and_(c, q)
                if e.off is not r:
                    dd = sub(r, e.off)
                    if dd.op == 'c':
                        if -size < dd.a[0] < e.size: raise Unsupported('partial overlap in ' + e.fam.name)
                        return None
                    q = under(eq(r, e.off), g)
                    if q is FALSE: return None
                    c = and_(c, q)
                return (c, e.val)
            prs = list(zip(e.path, path)) + [(e.off, r)]
            try: sol = self.unify(e, prs)
            except Unsupported:
                c = self.somewhere(e, prs)
                if c is None: raise
                c = under(c, g)
                return None if c is FALSE else (c, e.val)
            if sol is None: return None
            conds, m = sol
            c = subst(e.guard, m)
            for x in conds: c = and_(c, x)
            c = under(c, g)
            if c is FALSE: return None
            return (c, subst(e.val, m))
        if e.kind in ('fill', 'copy'):
            ln = e.size
            if len(e.rawpath) != len(rawpath): raise Unsupported('range path mismatch')
            if e.fam.flat is not None and e.fam.flat.op != 'c':
                # whole-row operations on flat matrices
                p0, _ = self.norm(e.fam, e.rawpath, e.rawoff, 8)
                if p0[-1] is not ZERO: raise Unsupported('flat partial fill')
                # rows covered: ln == 8*n*rows
                n = e.fam.flat; q, ok = self.divn(ln, n, e.fam.S or 8)
                if not ok: raise Unsupported('flat fill length')
                prs = list(zip(p0[:-2], path[:-2]))
                if q is ONE: prs.append((p0[-2], path[-2])); rangecond = TRUE
                else:
                    if e.qv: raise Unsupported('flat fill')
                    rangecond = and_(le(p0[-2], path[-2]), lt(path[-2], add(p0[-2], q)))
                if e.qv:
                    sol = self.unify(e, prs)
                    if sol is None: return None
                    conds, m = sol; c = andl(conds + [subst(e.guard, m)])
                else:
                    m = {}; c = and_(e.guard, andl(eq(x, y) for x, y in prs))
                c = and_(c, rangecond)
                if c is FALSE: return None
                start = e.rawoff
            else:
                prs = list(zip(e.rawpath, rawpath))
                if e.qv:
                    sol = self.unify(e, prs)
                    if sol is None: return None
                    conds, m = sol; c = andl(conds + [subst(e.guard, m)])
                else:
                    m = {}; c = e.guard
                    for x, y in prs: c = and_(c, eq(x, y))
                start = subst(e.rawoff, m); ln2 = subst(ln, m)
                d0 = sub(rawoff, start)
                c = and_(c, and_(le0(neg(d0)), le0(sub(add(d0, ONE), ln2))))
                c = under(c, g)
                if c is FALSE: return None
            if e.kind == 'fill':
                b = subst(e.val, m)
                def fv(ty, g2, b=b):
                    s = sort_of(ty)
                    if b is ZERO: return {'i': ZERO, 'd': D0, 'p': NULL, 'b': FALSE}[s]
                    if b.op == 'c' and s == 'i':
                        w = self.sizeof(ty); v = int.from_bytes(bytes([b.a[0] & 255])*w, 'little')
                        return ic(v) if w == 1 else sext(ic(v), 8*w)
                    return UNDEF[s]
                return (c, fv)
            src = subst(e.val, m)
            def cvf(ty, g2, src=src, d0=None, e=e, m=m):
                d = sub(rawoff, subst(e.rawoff, m))
                return self.load(self.padd(src, d), ty, g2, e.time)
            return (c, cvf)
        if e.kind == 'havoc':
            return e.val(self, e, path, r, size, rawpath, rawoff, g)
        raise Unsupported(e.kind)
    def divn(self, t, n, S):
        c, d = lin(t); n, f = unit(n)
        if c: return None, False
        q = {}; qc = 0
        for x, k in d.items():
            if k % (S*f): return None, False
            k //= S*f
            if x is n: qc += k
            elif x.op == 'mono' and n in x.a:
                rest = list(x.a); rest.remove(n); y = rest[0] if len(rest) == 1 else mk('mono', tuple(rest), 'i'); q[y] = q.get(y, 0)+k
            else: return None, False
        return mklin(qc, q), True

    def somewhere(self, e, pairs):
        """one of the iterations of a quantified store reaches the place, where which one does not matter (the value is the same in all)"""
        if len(e.qv) != 1 or not isinstance(e.val, T) or e.qv[0] in e.val.fv: return None
        v, = e.qv; w = bound_var(*rng(v)); G = subst(e.guard, {v: w}); hi = None
        for c in conj(G):
            t = c.a[0] if c.op == 'le0' else sub(ONE, c.a[0].a[0]) if c.op == 'not' and c.a[0].op == 'le0' else None
            if t is not None:
                k, d = lin(t)
                if d.get(w) == 1:
                    d = dict(d); del d[w]; x = mklin(k, d)
                    if w not in x.fv: hi = neg(sub(x, ONE)); break
        if hi is None: return None
        return exists(w, hi, and_(G, andl(eq(subst(p, {v: w}), x) for p, x in pairs)))
    def unify(self, e, pairs):
        """solve pattern == concrete for the quantified variables of e"""
        qv = set(e.qv); guard = e.guard
        if any(x.fv & qv for p, x in pairs):        # the place asked for mentions the same bound variables: rename ours
            ren = {v: bound_var(*rng(v)) for v in e.qv}
            sol = self.unify1(e, [(subst(p, ren), x) for p, x in pairs], tuple(ren[v] for v in e.qv), subst(guard, ren), subst(e.val, ren) if isinstance(e.val, T) else e.val)
            if sol is None: return None
            conds, m = sol; return conds, {v: m[w] for v, w in ren.items() if w in m}
        return self.unify1(e, pairs, tuple(e.qv), guard, e.val)
    def unify1(self, e, pairs, eqv, guard, val):
        m = {}; pend = [(p, x) for p, x in pairs if p is not x]; conds = []
        qv = set(eqv)
        progress = True
        while pend and progress:
            progress = False; nxt = []
            for p, x in pend:
                p = subst(p, m) if m else p
                un = p.fv & qv
                if not un:
                    q = eq(p, x)
                    if q is FALSE: return None
                    conds.append(q); progress = True; continue
                if len(un) == 1:
                    v, = un; c, d = lin(p); k = d.get(v)
                    if k is not None:
                        d = dict(d); del d[v]; rest = mklin(c, d)
                        if v not in rest.fv:
                            num = sub(x, rest)
                            if k in (1, -1): m[v] = scale(k, num)
                            else:
                                c2, d2 = lin(num)
                                if all(z % k == 0 for z in d2.values()):
                                    if c2 % k: return None
                                    m[v] = mklin(c2//k, {t: z//k for t, z in d2.items()})
                                else:
                                    if k < 0: num, k = neg(num), -k
                                    q = tdiv(num, ic(k)); m[v] = q; conds.append(le(ZERO, num)); conds.append(eq(scale(k, q), num))
                            progress = True; continue
                elif len(un) == 2:
                    # mixed radix: v1 + K*v2 + rest with 0 <= v1 < b <= K; the solution with v1 in [0, K) is unique, the guard keeps v1 < b
                    c, d = lin(p)
                    for v1 in un:
                        v2, = un - {v1}; K = d.get(v2)
                        if d.get(v1) != 1 or K is None or K < 2 or not any(lt(v1, ic(b)) in conj(guard) for b in range(1, K+1)): continue
                        d2 = dict(d); del d2[v1], d2[v2]; rest = mklin(c, d2)
                        if rest.fv & un: continue
                        num = sub(x, rest); q = tdiv(num, ic(K)); m[v2] = q; m[v1] = sub(num, scale(K, q)); conds.append(le(ZERO, num))
                        progress = True; break
                    else: nxt.append((p, x))
                    continue
                nxt.append((p, x))
            pend = nxt
        if pend: raise Unsupported('cannot unify quantified store in %s: %s' % (e.fam.name, pend))
        free = [v for v in eqv if v not in m and (v in guard.fv or (isinstance(val, T) and v in val.fv))]
        if free: raise Unsupported('quantified store with undetermined variable')
        for v in eqv:
            if v in m: conds.append(le(ic(max(0, rng(v)[0])), m[v]))
        return conds, m

    def initial(self, fam, path, r, size, rawpath, rawoff, ty, g, gorig):
        if fam.init is not None:
            v = fam.init(self, fam, path, r, ty, g)
            if v is not None: return v
        s = sort_of(ty)
        if fam.zero: return {'i': ZERO, 'd': D0, 'p': NULL, 'b': FALSE}[s]
        if fam.fresh:
            if g is not FALSE: self.uninit.append((g, fam, path, r))
            return UNDEF[s]
        if fam.const and fam.ginit is not None: return self.glob_initial(fam, path, r, size, ty)
        key = r.a[0] if r.op == 'c' else ('v',)
        args = path if r.op == 'c' else path + (r,)
        if s == 'p':
            ch = fam.child(key if r.op == 'c' else 'v')
            return ptr(ch, args, ZERO)
        nm = fam.name + ('@%s' % key if fam.ctype is None else '.' + fam.ctype(key)) if r.op == 'c' else fam.name + '@v'
        if s == 'd': return app(nm, args, 'd')
        if s == 'b': return app(nm, args, 'b')
        rg = fam.rngs.get(key) if r.op == 'c' else None
        if rg is None:
            w = ty.a
            rg = (0, 255) if w == 8 else ((-(1 << (w-1)), (1 << (w-1))-1) if w <= 32 else (-(1 << 61), 1 << 61))
        return app(nm, args, 'i', rg)

    def glob_initial(self, fam, path, r, size, ty):
        M, gty, val = fam.ginit
        q = path[-1]
        off = add(scale(fam.S, q), r)
        if off.op == 'c': return self.const_at(M, gty, val, off.a[0], ty)
        # symbolic index: enumerate
        tot = M.sizeof(gty); S = fam.S
        out = None
        if tot // S > 512: raise Unsupported('large constant table with symbolic index')
        if r.op != 'c': raise Unsupported('constant table')
        for i in range(tot//S):
            v = self.const_at(M, gty, val, i*S + r.a[0], ty)
            out = v if out is None else ite(eq(q, ic(i)), v, out)
        return out
    def const_at(self, M, gty, val, off, ty):
        gty = M.resolve(gty)
        if val is None: raise Unsupported('external global')
        if val[0] == 'zero' or val[0] == 'undef':
            return {'i': ZERO, 'd': D0, 'p': NULL, 'b': FALSE}[sort_of(ty)]
        if gty.k == 'arr':
            es = M.sizeof(gty.b); i = off // es
            if i < 0 or i >= gty.a: raise Unsupported('constant access out of bounds')
            if val[0] == 'str':
                if ty.k == 'i' and ty.a == 8: return ic(val[1][i])
                raise Unsupported('string load')
            return self.const_at(M, gty.b, val[1][i][1], off - i*es, ty)
        if gty.k == 'st':
            sz, offs = M.layout(gty)
            for i in reversed(range(len(offs))):
                if off >= offs[i]: return self.const_at(M, gty.a[i], val[1][i][1], off - offs[i], ty)
        if off: raise Unsupported('offset into scalar')
        return self.constant(M, gty, val)

    def constant(self, M, ty, v):
        k = v[0]
        if k == 'int':
            if ty.k == 'i' and ty.a == 1: return bconst(v[1] & 1)
            if ty.k == 'i' and ty.a == 8: return ic(v[1] & 255)
            return ic(v[1])
        if k == 'dbl': return dc(v[1])
        if k == 'null': return NULL
        if k == 'glob': return self.globptr(M, v[1])
        if k == 'undef': return UNDEF[sort_of(ty)] if ty.k in ('i', 'double', 'float', 'ptr') else ('agg', {})
        if k == 'zero':
            if ty.k in ('st', 'named', 'arr', 'vec'): return ('agg', {})
            return {'i': ZERO, 'd': D0, 'p': NULL, 'b': FALSE}[sort_of(ty)]
        if k == 'gep':
            base = self.constant(M, ir.PTR, v[2])
            return self.gep(M, v[1], base, [(t, self.constant(M, t, x)) for t, x in v[3]])
        if k == 'agg': return ('agg', {i: self.constant(M, t, x) for i, (t, x) in enumerate(v[1])})
        if k == 'cast' and v[1] in ('bitcast',): return self.constant(M, v[2], v[3])
        if k == 'cast' and v[1] == 'inttoptr':     # a nonzero marker value, never dereferenced
            if v[3][0] == 'int' and v[3][1] != 0:
                if not hasattr(self, 'markers'): self.markers = {}
                return self.markers.setdefault(v[3][1], ptr(Fam('marker%d' % v[3][1])))
        raise Unsupported('constant %r' % (v,))

    def globptr(self, M, name):
        if name in M.funcs or name in M.decls: return fnp(name)
        G = M.globals.get(name)
        if G is None: raise Unsupported('unknown global ' + name)
        key = (M.file, name) if G.internal else name
        f = self.globs.get(key)
        if f is None:
            f = Fam('@' + name)
            ty, val = ir.global_init(M, name)
            MM = M
            if val is None and not G.internal:
                for M2 in self.mods:
                    g2 = M2.globals.get(name)
                    if g2 is not None and not g2.internal:
                        t2, v2 = ir.global_init(M2, name)
                        if v2 is not None: ty, val, MM = t2, v2, M2; break
            f.const = val is not None; f.ginit = (MM, ty, val) if val is not None else None
            f.is_global = True
            rt = MM.resolve(ty)
            if rt.k == 'arr': f.S = MM.sizeof(rt.b)
            elif rt.k == 'st': f.S = MM.sizeof(rt)
            self.globs[key] = f
        return ptr(f)

    def padd(self, p, off):
        if off is ZERO: return p
        if p.op == 'ite': return ite(p.a[0], self.padd(p.a[1], off), self.padd(p.a[2], off))
        if p.op == 'ptr':
            if p.a[0].contig is not None: return self.rowptr(p.a[0], p.a[1], add(p.a[2], off))
            return ptr(p.a[0], p.a[1], add(p.a[2], off))
        if p.op == 'null': return mk('ptr', (NULLFAM, (), off), 'p') if off is not ZERO else p
        if p.op == 'undef': return p
        if self.opaque and p.op == 'v': return p
        raise Unsupported('pointer arithmetic on %s' % p.op)

    def rowptr(self, fam, path, off):
        """the rows of `fam` follow one another in memory, fam.contig elements each: a byte offset of k rows is row + k"""
        n = fam.contig; k = ZERO; rest = off
        if n.op != 'c' and path:
            c, d = lin(off); n, f = unit(n); u = fam.S*f
            for t, w in d.items():
                if w % u: continue
                if t is n: x = ONE
                elif t.op == 'mono' and n in t.a:
                    a = list(t.a); a.remove(n); x = a[0] if len(a) == 1 else mk('mono', tuple(a), 'i')
                else: continue
                k = add(k, scale(w//u, x)); rest = sub(rest, scale(w, t))
        return ptr(fam, path[:-1] + (add(path[-1], k),), rest) if k is not ZERO else ptr(fam, path, off)
    def gep(self, M, sty, base, idx):
        off = ZERO
        it, i0 = idx[0]
        rt = M.resolve(sty) if sty.k == 'named' else sty
        sz = M.sizeof(sty)
        self._setS(base, sz, rt)
        off = scale(sz, i0) if i0.s == 'i' else ZERO
        cur = rt
        for t, x in idx[1:]:
            cur = M.resolve(cur)
            if cur.k == 'st':
                if x.op != 'c': raise Unsupported('struct index')
                off = add(off, ic(M.layout(cur)[1][x.a[0]])); cur = cur.a[x.a[0]]
            elif cur.k in ('arr', 'vec'):
                off = add(off, scale(M.sizeof(cur.b), x)); cur = cur.b
            else: raise Unsupported('gep')
        return self.padd(base, off)
    def _setS(self, p, sz, rt):
        if p.op == 'ite': self._setS(p.a[1], sz, rt); self._setS(p.a[2], sz, rt); return
        if p.op == 'ptr' and p.a[0].S is None:
            if rt.k == 'st' or (rt.k in ('double', 'ptr') or (rt.k == 'i' and rt.a > 8)): p.a[0].S = sz

    # ---------------------------------------------------------------- execution
    def fresh(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)

    def call_function(self, name, args, g=TRUE):
        F = self.funcs[name]
        return self.exec_function(F, args, g)

    def exec_function(self, F, args, g, varargs=()):
        if len(self.stack) > 60: raise Unsupported('call depth')
        if sum(1 for f in self.stack if f[0] is F) > 3: raise Unsupported('recursion in ' + F.name)
        ir.func_blocks(F)
        env = {}
        for i, (nm, ty, bv) in enumerate(F.params):
            a = args[i]
            if bv is not None:
                # by-value aggregate: private copy
                f = Fam('byval:%s.%s' % (F.name, nm), fresh=True); f.S = F.mod.sizeof(bv)
                q = ptr(f)
                self.copy(q, a, ic(F.mod.sizeof(bv)), g)
                a = q
            env[nm] = a
        self.stack.append((F, varargs)); self.called.add(F.name)
        try:
            if TRACE: print('  '*len(self.stack) + F.name)
            ret = []
            R = region(F, None)
            self.run_region(R, [Edge(g, {})], env, ret)
        finally: self.stack.pop()
        if F.ret.k == 'void' or not ret: return None
        return self.merge([(gg, v) for gg, v in ret], g)

    def merge(self, gv, g):
        gv = [(a, v) for a, v in gv if a is not FALSE]
        if not gv: return None
        r = gv[-1][1]
        for a, v in reversed(gv[:-1]):
            if v is r: continue
            r = self.ite_any(self.strip(a, g), v, r)
        return r
    def ite_any(self, c, a, b):
        if type(a) is tuple or type(b) is tuple:   # aggregates
            ks = set(a[1]) | set(b[1])
            return ('agg', {k: self.ite_any(c, a[1].get(k, b[1].get(k)), b[1].get(k, a[1].get(k))) for k in ks})
        return ite(c, a, b)
    def strip(self, a, g):
        gs = gset(g)
        r = TRUE
        for l in conj(a):
            if l not in gs: r = and_(r, l)
        return r

    def copy(self, dst, src, ln, g):
        if ln.op == 'c' and ln.a[0] == 0: return
        dst = ite_under(dst, g); src = ite_under(src, g)
        if dst.op == 'ite':
            self.copy(dst.a[1], src, ln, and_(g, dst.a[0])); self.copy(dst.a[2], src, ln, and_(g, not_(dst.a[0]))); return
        if dst.op != 'ptr': raise Unsupported('memcpy to ' + dst.op)
        e = Ent('copy', g, None, None, ln, src); e.rawpath = dst.a[1]; e.rawoff = dst.a[2]
        e.path = dst.a[1]; e.off = dst.a[2]
        if self.reads is not None:
            s = src
            if s.op == 'ptr': self.reads.append((s.a[0], None, None, ln, s.a[1], s.a[2], g, self.time))
        self._push(dst.a[0], e)
    def fill(self, dst, byte, ln, g):
        if ln.op == 'c' and ln.a[0] == 0: return
        dst = ite_under(dst, g)
        if dst.op == 'ite':
            self.fill(dst.a[1], byte, ln, and_(g, dst.a[0])); self.fill(dst.a[2], byte, ln, and_(g, not_(dst.a[0]))); return
        if dst.op != 'ptr': raise Unsupported('memset of ' + dst.op)
        e = Ent('fill', g, None, None, ln, byte); e.rawpath = dst.a[1]; e.rawoff = dst.a[2]; e.path = dst.a[1]; e.off = dst.a[2]
        self._push(dst.a[0], e)

    # run the collapsed DAG; returns dict target -> [Edge]; backedges under the header key when R.L is set
    def run_region(self, R, in_edges, env, ret, phi_override=None, header_only=False):
        F = R.F; L = R.L
        inc = {R.entry: list(in_edges)}
        guards = {}
        out = {}
        for nd in R.order:
            if isinstance(nd, Loop): hb = nd.header
            else: hb = nd
            edges = inc.get(hb, [])
            edges = [e for e in edges if e.g is not FALSE]
            if not edges: guards[nd] = FALSE; continue
            if len(edges) == 1: g = edges[0].g
            else:
                src = R.gsrc.get(nd)
                if src is not None and guards.get(src) is not None and guards[src] is not FALSE: g = guards[src]
                else: g = orl(e.g for e in edges)
            if g is FALSE: guards[nd] = FALSE; continue
            guards[nd] = g
            if isinstance(nd, Loop):
                exits = self.run_loop(F, nd, edges, g, env, ret)
                for tgt, es in exits.items(): self.route(R, tgt, es, inc, out)
                continue
            b = F.blocks[hb]
            # phis
            if hb == R.entry and phi_override is not None:
                for k, v in phi_override.items(): env[k] = v
            else:
                vals = {}
                for I in b.insts:
                    if I.op != 'phi': break
                    vals[I.res] = self.merge([(e.g, e.phis[I.res]) for e in edges], g)
                env.update(vals)
            self.run_block(F, b, g, env)
            for tgt, gg in self.branches(F, b, g, env, ret):
                if gg is FALSE: continue
                es = [Edge(gg, self.phivals(F, b.name, tgt, env))]
                self.route(R, tgt, es, inc, out)
            if header_only: break
        return out
    def route(self, R, tgt, es, inc, out):
        L = R.L
        if L is not None and (tgt not in L.blocks or tgt == L.header): out.setdefault(tgt, []).extend(es)
        else: inc.setdefault(tgt, []).extend(es)
    def phivals(self, F, src, tgt, env):
        d = {}
        for I in F.blocks[tgt].insts:
            if I.op != 'phi': break
            for v, l in I.a:
                if l == src: d[I.res] = self.val(F, v, I.ty, env); break
        return d
    def branches(self, F, b, g, env, ret):
        t = b.term
        if t.op == 'br': return [(t.a, g)]
        if t.op == 'cbr':
            c = under(self.val(F, t.a, ir.I1, env), g)
            if t.b == t.c: return [(t.b, g)]
            return [(t.b, and_(g, c)), (t.c, and_(g, not_(c)))]
        if t.op == 'switch':
            v = self.val(F, t.a, t.ty, env); out = {}; rest = g
            for cval, l in t.c:
                if t.ty.a == 8: cval &= 255
                c = under(eq(v, ic(cval)), g); out[l] = or_(out.get(l, FALSE), and_(g, c)); rest = and_(rest, not_(c))
            out[t.b] = or_(out.get(t.b, FALSE), rest)
            return list(out.items())
        if t.op == 'ret':
            ret.append((g, None if t.a is None else self.val(F, t.a, t.ty, env))); return []
        if t.op == 'unreachable':
            self.dead.append(g); return []
        raise Unsupported(t.op)

    def val(self, F, v, ty, env):
        k = v[0]
        if k == 'loc':
            try: return env[v[1]]
            except KeyError: return UNDEF[sort_of(ty)]
        if k == 'undef' and ty.k in ('i', 'double', 'ptr', 'float'): return UNDEF[sort_of(ty)]
        return self.constant(F.mod, ty, v)

    def run_block(self, F, b, g, env):
        for I in b.insts:
            op = I.op
            if op == 'phi': continue
            self.steps += 1
            if self.steps > self.step_limit: raise Unsupported('step limit')
            if op == 'load': env[I.res] = self.load(self.val(F, I.a, ir.PTR, env), I.ty, g, inst=I)
            elif op == 'store': 
                self.store(self.val(F, I.b, ir.PTR, env), I.ty, self.val(F, I.a, I.ty, env), g, I)
            elif op == 'getelementptr':
                env[I.res] = self.gep(F.mod, I.a, self.val(F, I.b, ir.PTR, env), [(t, self.val(F, x, t, env)) for t, x in I.c])
            elif op == 'icmp': env[I.res] = self.icmp(I, self.val(F, I.a, I.ty, env), self.val(F, I.b, I.ty, env))
            elif op == 'fcmp': env[I.res] = self.fcmp(I.c, self.val(F, I.a, I.ty, env), self.val(F, I.b, I.ty, env))
            elif op in _arith: env[I.res] = self.arith(op, I, self.val(F, I.a, I.ty, env), self.val(F, I.b, I.ty, env))
            elif op in ir._casts: env[I.res] = self.cast(op, I, self.val(F, I.a, I.b, env))
            elif op == 'select':
                c = under(self.val(F, I.a, ir.I1, env), g)
                env[I.res] = self.ite_any(c, self.val(F, I.b, I.ty, env), self.val(F, I.c, I.ty, env))
            elif op == 'fneg': env[I.res] = dneg(self.val(F, I.a, I.ty, env))
            elif op == 'freeze': env[I.res] = self.val(F, I.a, I.ty, env)
            elif op == 'alloca':
                f = Fam('%s:%s' % (F.name, I.res), fresh=True); rt = F.mod.resolve(I.a)
                if rt.k == 'arr': f.S = F.mod.sizeof(rt.b)
                else: f.S = F.mod.sizeof(rt)
                env[I.res] = ptr(f)
            elif op == 'call': 
                r = self.call(F, I, g, env)
                if I.res is not None:
                    env[I.res] = r if r is not None else (UNDEF[sort_of(I.ty)] if I.ty.k in ('i', 'double', 'ptr', 'float') else ('agg', {}))
            elif op == 'extractvalue':
                a = self.val(F, I.a, I.ty, env)
                if len(I.b) != 1: raise Unsupported('extractvalue')
                env[I.res] = a[1].get(I.b[0], UNDEF['d'])
            elif op == 'insertvalue':
                a = self.val(F, I.a, I.ty, env)
                if len(I.c) != 1: raise Unsupported('insertvalue')
                d = dict(a[1]); d[I.c[0]] = self.val(F, I.b, F.mod.resolve(I.ty).a[I.c[0]], env); env[I.res] = ('agg', d)
            else: raise Unsupported('instruction %s in %s' % (I.line, F.name))

    def icmp(self, I, a, b):
        p = I.c
        if a.s == 'p' or b.s == 'p':
            if a.s == 'i': a = NULL
            if b.s == 'i': b = NULL
            r = None
            if p in ('eq', 'ne'): r = peq(a, b)
            else:
                if a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0] and a.a[1] == b.a[1]:
                    a, b = a.a[2], b.a[2]
                    r = {'ult': lt(a, b), 'ule': le(a, b), 'ugt': lt(b, a), 'uge': le(b, a)}[p]; return r
                raise Unsupported('pointer comparison')
            return r if p == 'eq' else not_(r)
        if a.s == 'b':
            r = iff(a, b)
            return r if p == 'eq' else not_(r)
        if p == 'eq': return eq(a, b)
        if p == 'ne': return not_(eq(a, b))
        if p[0] == 'u' and I.ty.a > 8:
            w = I.ty.a
            if rng(a)[0] < 0:
                if a.op in ('lin', 'mono') and w == 64: pass   # size arithmetic
                else: a = zext(a, w)
            if rng(b)[0] < 0:
                if b.op in ('lin', 'mono') and w == 64: pass
                else: b = zext(b, w)
        if p[0] == 's' and I.ty.a == 8: a, b = sext(a, 8), sext(b, 8)
        q = p[1:]
        if q == 'lt': return lt(a, b)
        if q == 'le': return le(a, b)
        if q == 'gt': return lt(b, a)
        return le(b, a)
    def fcmp(self, p, a, b):
        if p in ('oeq', 'ueq'): return deq(a, b)
        if p in ('une', 'one'): return not_(deq(a, b))
        q = p[1:]
        if q == 'lt': return dlt(a, b)
        if q == 'gt': return dlt(b, a)
        if q == 'le': return not_(dlt(b, a))
        if q == 'ge': return not_(dlt(a, b))
        if p == 'ord' or p == 'true': return TRUE
        if p == 'uno' or p == 'false': return FALSE
        raise Unsupported('fcmp ' + p)
    def arith(self, op, I, a, b):
        if op[0] == 'f':
            if op == 'fadd': return dadd(a, b)
            if op == 'fsub': return dsub(a, b)
            if op == 'fmul': return dmul(a, b)
            if op == 'fdiv': return ddiv(a, b)
            return dfn('fmod', a, b)
        if I.ty.k == 'vec': raise Unsupported('vector')
        if I.ty.a == 1:
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op in ('xor', 'add', 'sub'): return or_(and_(a, not_(b)), and_(not_(a), b))
        if a.op == 'undef' or b.op == 'undef': return UNDEF['i']
        w = I.ty.a
        if op == 'add':
            r = add(a, b)
            return self.wrap(r, w, I)
        if op == 'sub': return self.wrap(sub(a, b), w, I)
        if op == 'mul': return self.wrap(mul(a, b), w, I)
        if op == 'sdiv': return tdiv(a, b)
        if op == 'udiv':
            if rng(a)[0] < 0 and a.op not in ('lin', 'mono'): a = zext(a, w)
            return tdiv(a, b)
        if op == 'srem': return trem(a, b)
        if op == 'urem':
            if rng(a)[0] < 0: a = zext(a, w)
            return trem(a, b)
        if op == 'and': return band(a, b)
        if op == 'or': return bor(a, b)
        if op == 'xor': return bxor(a, b)
        if op == 'shl' and b.op == 'c':
            r = scale(1 << b.a[0], a); return self.wrap(r, w, I)
        if op == 'shl': return app('shl%d' % w, (a, b), 'i')
        if op in ('ashr', 'lshr') and b.op == 'c':
            if op == 'lshr' and rng(a)[0] < 0: a = zext(a, w)
            if rng(a)[0] >= 0: return tdiv(a, ic(1 << b.a[0]))
            return tdiv(a, ic(1 << b.a[0])) if all(k % (1 << b.a[0]) == 0 for k in lin(a)[1].values()) and lin(a)[0] % (1 << b.a[0]) == 0 else app(op, (a, b), 'i')
        return app(op + str(w), (a, b), 'i')
    def wrap(self, r, w, I):
        if 'nsw' in I.flags: return r
        if r.op == 'c':
            v = r.a[0] & ((1 << w)-1)
            return ic(v if w == 8 else (v - (1 << w) if v >> (w-1) else v))
        if w == 8: return zext(r, 8)
        # unsigned arithmetic: assumed not to wrap (sizes and offsets); hashes are handled by contract
        return r
    def cast(self, op, I, a):
        if op in ('sext', 'zext'):
            if a.s == 'b': return ite(a, ONE if op == 'zext' else ic(-1), ZERO)
            if a.op == 'undef': return a
            if op == 'sext': return sext(a, I.b.a) if I.b.a == 8 else a
            if I.b.a == 8: return a
            return a if rng(a)[0] >= 0 or a.op in ('lin', 'mono', 'ite') else zext(a, I.b.a)
        if op == 'trunc':
            if a.op == 'undef': return UNDEF['i'] if I.ty.a > 1 else UNDEF['b']
            if I.ty.a == 1: return bit(a, 0)
            if I.ty.a == 8: return zext(a, 8)
            lo, hi = rng(a); w = I.ty.a
            if lo >= -(1 << (w-1)) and hi < (1 << (w-1)): return a
            if a.op in ('c', 'band', 'bor', 'bxor', 'ite', 'zext', 'sext'): return sext(a, w)
            self.trunc_assumed = True
            return a
        if op in ('sitofp', 'uitofp'): return i2d(a) if a.s == 'i' else ite(a, D1, D0)
        if op in ('fptosi', 'fptoui'): return d2i(a)
        if op in ('fpext', 'fptrunc', 'bitcast'): return a
        if op == 'ptrtoint': return mk('p2i', (a,), 'i')
        if op == 'inttoptr': return a.a[0] if a.op == 'p2i' else mk('i2p', (a,), 'p')
        raise Unsupported(op)

    # ---------------------------------------------------------------- calls
    def call(self, F, I, g, env):
        args = [None if v[0] == 'meta' else self.val(F, v, t, env) for t, v, bv in I.b]
        if I.a[0] == 'glob': name = I.a[1]
        else:
            p = ite_under(self.val(F, I.a, ir.PTR, env), g)
            return self.call_ptr(F, I, p, args, g, env)
        return self.call_named(F, I, name, args, g, env)
    def call_ptr(self, F, I, p, args, g, env):
        if p.op == 'ite':
            a = self.call_ptr(F, I, p.a[1], args, and_(g, p.a[0]), env); b = self.call_ptr(F, I, p.a[2], args, and_(g, not_(p.a[0])), env)
            if a is None or b is None: return None
            return self.ite_any(p.a[0], a, b)
        if g is FALSE: return UNDEF[sort_of(I.ty)] if I.ty.k != 'void' else None
        if p.op == 'fnp': return self.call_named(F, I, p.a[0], args, g, env)
        h = self.contracts.get('*indirect')
        if h: return h(self, g, [p] + args, I)
        raise Unsupported('indirect call')
    def call_named(self, F, I, name, args, g, env):
        h = self.contracts.get(name)
        if h is not None:
            self.called.add(name)
            return h(self, g, args, I)
        fn = F.mod.funcs.get(name) or self.funcs.get(name)
        if fn is not None:
            nfix = len(fn.params)
            return self.exec_function(fn, args[:nfix], g, [(I.b[i][0], args[i]) for i in range(nfix, len(args))] if fn.vararg else ())
        h = EXTERN.get(name)
        if h is None and name.startswith('llvm.'):
            for k in EXTERN:
                if name.startswith(k): h = EXTERN[k]; break
        if h is None and getattr(self, 'default', None) is not None: return self.default(self, name, g, args, I)
        if h is None: raise Unsupported('external function ' + name)
        return h(self, g, args, I)

    # ---------------------------------------------------------------- loops
    def run_loop(self, F, L, edges, g, env, ret):
        R = region(F, L); hdr = F.blocks[L.header]
        phis = [I for I in hdr.insts if I.op == 'phi']
        init = {I.res: self.merge([(e.g, e.phis[I.res]) for e in edges], g) for I in phis}
        mode = self.trip_mode(F, L, R, phis, init, env, g)
        if mode == 'unroll': return self.unroll_loop(F, L, R, phis, init, env, g, ret)
        m = self.mark(); st = self.snap()
        try:
            r = Summary(self, F, L, R, phis, init, env, g, ret).run()
            self.loops_summarised += 1
            return r
        except Unsupported as ex:
            self.rollback(m); self.unsnap(st)
            if mode == 'maybe': return self.unroll_loop(F, L, R, phis, init, env, g, ret)
            raise Unsupported('%s [loop %s in %s]' % (ex, L.header, F.name)) if 'loop' not in str(ex) else ex
    def snap(self): return (len(self.facts), len(self.dead), len(self.events), len(self.uninit), len(self.derefnull), len(self.allocs))
    def unsnap(self, s):
        del self.facts[s[0]:]; del self.dead[s[1]:]; del self.events[s[2]:]; del self.uninit[s[3]:]; del self.derefnull[s[4]:]; del self.allocs[s[5]:]

    def trip_mode(self, F, L, R, phis, init, env, g):
        """unroll loops whose exit test involves only literals"""
        if getattr(self, "force_unroll", False): return "unroll"
        exiting = [b for b in L.blocks if any(s not in L.blocks for s in F.blocks[b].succs)]
        env2 = dict(env); probe = {}
        for I in phis:
            probe[I.res] = self.probe_var(I, init[I.res])
        env2.update(probe)
        if L.header in exiting:
            m = self.mark(); st = self.snap(); rd, self.reads = self.reads, None; wr, self.writes = self.writes, None
            try:
                self.run_block(F, F.blocks[L.header], g, env2)
                t = F.blocks[L.header].term
                c = self.val(F, t.a, ir.I1 if t.op == 'cbr' else t.ty, env2)
            except Unsupported: return 'maybe'
            finally: self.rollback(m); self.unsnap(st); self.reads = rd; self.writes = wr
            pv = set(probe.values()); pv2 = set()
            for x in pv:
                pv2.add(x)
                if x.op == 'ptr': pv2.add(x.a[2])
            at = atoms(c) - pv2
            if not at:
                # initial values of the phis involved must be literal too
                inv = [I for I in phis if occurs(c, probe[I.res])]
                if all(self.literal(init[I.res]) for I in inv): return 'unroll'
                return 'sum'
            # test may become literal once loads of concrete memory are resolved
            if any(a.op in ('app', 'appr') for a in at):
                inv = [I for I in phis if occurs(c, probe[I.res])]
                if inv and all(self.literal(init[I.res]) for I in inv):
                    c2 = subst(c, {probe[I.res]: init[I.res] for I in inv if probe[I.res].op != 'ptr'})
                    if c2 in (TRUE, FALSE): return 'maybe'
            return 'sum'
        return 'maybe'
    def literal(self, t): return t.op in ('c', 'dc', 'true', 'false', 'null') or (t.op == 'ptr' and t.a[2].op == 'c')
    def probe_var(self, I, init):
        s = sort_of(I.ty); nm = self.fresh('X' + I.res)
        if s == 'i':
            v = mk('v', (nm,), 'i')
            lo, hi = rng(init) if init.s == 'i' else (-INF, INF)
            if lo >= 0: v.rng = (0, INF)       # only a guess: the closed form is re-checked afterwards
            return v
        if s == 'b': return bvar(nm)
        if s == 'd': return dvar(nm)
        if init.op == 'ptr': return ptr(init.a[0], init.a[1], add(init.a[2], mk('v', (nm,), 'i')))
        return mk('v', (nm,), 'p')

    def unroll_loop(self, F, L, R, phis, init, env, g, ret):
        self.loops_unrolled += 1
        out = {}; cur = dict(init); gk = g; n = 0
        while True:
            n += 1
            if n > self.unroll: raise Unsupported('unroll limit in %s' % F.name)
            ex = self.run_region(R, [Edge(gk, {})], env, ret, phi_override=cur)
            back = ex.pop(L.header, [])
            for t, es in ex.items(): out.setdefault(t, []).extend(es)
            back = [e for e in back if e.g is not FALSE]
            if not back: break
            gk = orl(e.g for e in back)
            if gk is FALSE: break
            if n > 8 and self.solver is not None and n % 4 == 0 and self.solver(gk): break
            cur = {I.res: self.merge([(e.g, e.phis[I.res]) for e in back], gk) for I in phis}
        # all exits to a single target with nothing lost: the guard is g again
        if len(out) == 1:
            (t, es), = out.items()
            if len(es) > 1 and not any(F.blocks[b].term.op in ('unreachable', 'ret') for b in L.blocks) and not self.may_die(F, L):
                vals = {}
                for k in es[0].phis: vals[k] = self.merge([(e.g, e.phis[k]) for e in es], g)
                out = {t: [Edge(g, vals)]}
        return out
    def may_die(self, F, L):
        for b in L.blocks:
            for s in F.blocks[b].succs:
                if F.blocks[s].term.op == 'unreachable': return True
        return False

_arith = ir._binops
NULLFAM = Fam('null'); NULLFAM.nullable = lambda path: FALSE

def atoms(t, memo=None):
    """leaf atoms (variables, applications) of a term"""
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('v', 'k', 'bv', 'app', 'appr'): out.add(x)
        elif x.op == 'ptr': 
            out.add(x)
        elif x.op in ('c', 'dc', 'true', 'false', 'null', 'fnp'): pass
        else: st.extend(subterms(x))
    return out
def occurs(t, v, memo=None):
    seen = set(); st = [t]
    vs = {v}
    if v.op == 'ptr': vs |= {x for x in lin(v.a[2])[1] if x.op == 'v' and str(x.a[0]).startswith('X')}
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in vs: return True
        st.extend(subterms(x))
    return False

from .loops import Summary           # noqa: E402
from .externs import EXTERN          # noqa: E402
