"""Inductive summaries of loops with a symbolic number of iterations."""
from .terms import *
from . import ir

def first(k, hi, body):
    """smallest 0 <= k < hi with body (meaningful only when one exists)"""
    return TM_bind('first', k, hi, body)
def TM_bind(op, k, hi, body):
    from .terms import _bind
    return _bind(op, k, hi, body, 'i')
def _rb_first(t, f):
    k = bound_var()
    a = t.a
    return first(k, f(a[1]), f(subst(a[2], {a[0]: k})))
import vf.terms as _tm
_tm._rebuild_ext['first'] = _rb_first

class Cell:
    """a memory cell (or a quantified vector of cells) promoted to a pseudo-phi"""
    def __init__(s, fam, rawpath, rawoff, path, off, ty, qv, guard):
        s.fam, s.rawpath, s.rawoff, s.path, s.off, s.ty, s.qv, s.guard = fam, rawpath, rawoff, path, off, ty, qv, guard
    def key(s): return (s.fam, s.path, s.off)

def prune(t, g, solver):
    memo = {}
    def go(x, cs):
        if x.op == 'ite':
            c = x.a[0]
            if solver(andl([g, cs, c])): return go(x.a[2], cs)
            if solver(andl([g, cs, not_(c)])): return go(x.a[1], cs)
            a, b = go(x.a[1], and_(cs, c)), go(x.a[2], and_(cs, not_(c)))
            return x if a is x.a[1] and b is x.a[2] else ite(c, a, b)
        if x.op == 'dadd': 
            ys = [go(y, cs) for y in subterms(x)]
            m = {y: z for y, z in zip(subterms(x), ys) if y is not z}
            return subst(x, m) if m else x
        return x
    return go(t, TRUE)

class Summary:
    def __init__(s, ex, F, L, R, phis, init, env, g, ret):
        s.ex, s.F, s.L, s.R, s.phis, s.init, s.env, s.g, s.ret = ex, F, L, R, phis, init, env, g, ret
        s.k = bound_var()
        s.cells = []; s.ih = []

    def unsup(s, msg):
        from .sym import Unsupported
        raise Unsupported('%s [loop %s in %s]' % (msg, s.L.header, s.F.name))

    def body(s, vals, cellvals, g, keep=False, header_only=False):
        """run one iteration with the given phi values; -> (back values, exits, writes, reads, rets, cell back values)"""
        ex = s.ex; m = ex.mark(); st = ex.snap()
        rd, ex.reads = ex.reads, []
        wr, ex.writes = ex.writes, []
        env = dict(s.env); ret = []
        try:
            for c, v in zip(s.cells, cellvals): s.put_cell(c, v, g)
            for w, kp, lo in s.ih: s.put_hypothesis(w, kp, lo, g)
            nput = len(ex.writes)
            t0 = ex.time
            out = ex.run_region(s.R, [], env, ret, phi_override=vals, header_only=header_only) if False else s._run(vals, g, env, ret, header_only)
            back = out.pop(s.L.header, [])
            back = [e for e in back if e.g is not FALSE]
            gb = orl(e.g for e in back)
            bv = {I.res: (ex.merge([(e.g, e.phis[I.res]) for e in back], gb) if back else None) for I in s.phis}
            cb = []
            if back and not header_only:
                r2, ex.reads = ex.reads, None
                for c in s.cells: cb.append(s.get_cell(c, gb))
                ex.reads = r2
            writes = ex.writes[nput:]; reads = ex.reads
            evs = ex.events[st[2]:]
            extra = dict(facts=ex.facts[st[0]:], dead=ex.dead[st[1]:], events=evs, uninit=ex.uninit[st[3]:], derefnull=ex.derefnull[st[4]:], allocs=ex.allocs[st[5]:])
            return dict(bv=bv, gb=gb, exits=out, writes=writes, reads=reads, ret=ret, cb=cb, env=env, extra=extra, t0=t0)
        finally:
            if not keep: ex.rollback(m); ex.unsnap(st)
            else:
                pass
            w2, r2 = ex.writes, ex.reads
            ex.reads, ex.writes = rd, wr
            if keep:
                if rd is not None: rd.extend(r2)
                if wr is not None: wr.extend(w2)
    def _run(s, vals, g, env, ret, header_only):
        from .sym import Edge
        return s.ex.run_region(s.R, [Edge(g, {})], env, ret, phi_override=vals, header_only=header_only)

    def put_cell(s, c, v, g):
        from .sym import Ent
        e = Ent('st', and_(g, c.guard), c.path, c.off, s.ex.sizeof(c.ty), v, c.ty)
        e.rawpath, e.rawoff, e.qv = c.rawpath, c.rawoff, c.qv
        s.ex._push(c.fam, e)
    def get_cell(s, c, g):
        # read at the symbolic point of the cell's own quantified variables
        return s.ex._lookup(c.fam, c.path, c.off, s.ex.sizeof(c.ty), c.rawpath, c.rawoff, c.ty, and_(g, c.guard), None)

    def run(s):
        ks = s.ex.kstack; s.ex.kstack = ks + (s.k,)
        try: return s.run_()
        finally: s.ex.kstack = ks
    def run_(s):
        for attempt in range(12):
            need = s.try_run()
            if need is None: return s.result
            s.cells.append(need)
        s.unsup('too many promoted cells')

    def classify(s, X, back, k, probes):
        """induction: X + c -> c"""
        if back is None: return ('inv',)
        if back is X: return ('inv',)
        if X.op == 'ptr':
            if back.op == 'ptr' and back.a[0] is X.a[0] and len(back.a[1]) == len(X.a[1]) and all(p is q for p, q in zip(back.a[1], X.a[1])):
                d = sub(back.a[2], X.a[2])
                if not s.dep(d, probes): return ('ind', d)
            return ('other',)
        if X.s == 'i':
            d = sub(back, X)
            if not s.dep(d, probes): return ('ind', d)
        return ('other',)
    def dep(s, t, probes):
        from .sym import atoms
        seen = set(); st = [t]
        pv = set()
        for p in probes:
            pv.add(p)
            if p.op == 'ptr':
                for x in lin(p.a[2])[1]:
                    if x.op == 'v' and str(x.a[0]).startswith('X'): pv.add(x)
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x in pv or x is s.k: return True
            if x.op in ('app', 'appr') and x.a[0] in s.accnames: return True
            st.extend(subterms(x))
        return False

    def acc_at(s, c, idx):
        return app(c.acc, idx, sort_of_ty(c.ty)) if c.qv else c.accvar

    def try_run(s):
        ex = s.ex; k = s.k; g = s.g
        s.accnames = set()
        for c in s.cells:
            nm = ex.fresh('ACC'); s.accnames.add(nm)
            c.acc = nm
            so = sort_of_ty(c.ty)
            if c.qv: c.accvar = app(nm, c.qv, so)
            else: c.accvar = {'i': ivar(nm), 'd': dvar(nm), 'b': bvar(nm), 'p': mk('v', (nm,), 'p')}[so]
        accv = [c.accvar for c in s.cells]
        X = {I.res: ex.probe_var(I, s.init[I.res]) for I in s.phis}
        allp = list(X.values()) + accv
        # pass 1: find induction variables (iterated: inductions whose step is invariant)
        P = s.body(X, accv, g)
        vals = {}; others = []; ind = {}
        for I in s.phis:
            c = s.classify(X[I.res], P['bv'][I.res], k, allp)
            if c[0] == 'inv': vals[I.res] = s.init[I.res]
            elif c[0] == 'ind':
                ind[I.res] = c[1]
                vals[I.res] = s.step(s.init[I.res], mul(c[1], k))
            else:
                others.append(I); vals[I.res] = X[I.res]
        # trip bound from the header exit
        gk = and_(g, le0(neg(k)))
        H = s.body(vals, accv, gk, header_only=True)
        T = None; contc = None
        hterm = s.F.blocks[s.L.header].term
        hx = [t for t in s.F.blocks[s.L.header].succs if t not in s.L.blocks]
        header_exit = False
        if hx and hterm.op == 'cbr':
            c = ex.val(s.F, hterm.a, ir.I1, H['env'])
            stay = c if hterm.c in hx else not_(c)
            header_exit = True
            T = s.trip(stay, k)
            if T is None:
                T = ic(1 << 30); header_exit = False       # treated as an ordinary early exit
        else: T = ic(1 << 30)
        gk = andl([g, le0(neg(k)), lt(k, T)])
        for it in range(3):
            B = s.body(vals, accv, gk)
            # more invariants/inductions once the first ones are closed
            ch = False
            for I in list(others):
                c = s.classify(X[I.res], B['bv'][I.res], k, [X[J.res] for J in others] + accv)
                if c[0] == 'inv': vals[I.res] = s.init[I.res]; others.remove(I); ch = True
                elif c[0] == 'ind' and c[1].op != 'c' or c[0] == 'ind':
                    vals[I.res] = s.step(s.init[I.res], mul(c[1], k)); ind[I.res] = c[1]; others.remove(I); ch = True
            if not ch: break
        if ex.recur and s.recurrences(B, T): B = s.body(vals, accv, gk)
        # accumulators
        accs = {}
        pv = [X[I.res] for I in others] + accv
        for I in others:
            f = s.accumulator(X[I.res], B['bv'][I.res], s.init[I.res], [p for p in pv if p is not X[I.res]], T)
            if f is None and (X[I.res].s in 'id' or getattr(ex, 'ptr_havoc', False)): f = s.havoc(X[I.res], B['bv'][I.res], s.init[I.res])
            if f is None: s.unsup('unrecognised recurrence for %s: %s' % (I.res, pp(B['bv'][I.res])[:300]))
            accs[I.res] = f
        cellfin = []
        for c, b in zip(s.cells, B['cb']):
            init = ex._lookup(c.fam, c.path, c.off, ex.sizeof(c.ty), c.rawpath, c.rawoff, c.ty, and_(g, c.guard), None)
            f = s.accumulator(c.accvar, b, init, [p for p in pv if p is not c.accvar], T, c)
            if f is None and ex.solver is not None and isinstance(b, T_):       # drop the branches that the bounds exclude
                b2 = prune(b, andl([gk, s.clean(c.guard)]), ex.solver)
                if b2 is not b: b = b2; f = s.accumulator(c.accvar, b, init, [p for p in pv if p is not c.accvar], T, c)
            if f is None and not c.qv and (c.accvar.s in 'id' or getattr(ex, 'ptr_havoc', False)): f = s.havoc(c.accvar, b, init)
            if f is None: s.unsup('unrecognised recurrence for cell %s: %s' % (c.fam.name, pp(b)[:300]))
            cellfin.append(f)
        if others or s.cells:
            # final pass with accumulators replaced by their value at iteration k
            vals2 = dict(vals)
            for I in others: vals2[I.res] = accs[I.res](k)
            cv2 = [f(k) for f in cellfin]
            for v in list(vals2.values()) + cv2:
                if v is None: s.unsup('accumulator used inside the loop in a way that is not supported')
            B = s.body(vals2, cv2, gk)
        else: vals2 = vals; cv2 = []
        # the closed forms are an induction: re-check the step from the closed form itself
        for I in s.phis:
            if I in others or B['bv'][I.res] is None: continue
            want = s.step(s.init[I.res], mul(ind[I.res], add(k, ONE))) if I.res in ind else s.init[I.res]
            if B['bv'][I.res] is not want: s.unsup('induction step of %s not confirmed: %s vs %s' % (I.res, pp(B['bv'][I.res])[:200], pp(want)[:200]))
        if s.ih: s.preserved(B, T)
        # hazards
        need = s.hazards(B, T)
        if need is not None: return need
        # early exits
        s.finish(B, T, header_exit, vals, accs, ind, others, cellfin)
        return None

    # ---- recurrences along one dimension of an array, by a given invariant: ex.recur = {family: (dimension, reach, value(path), definition(path))}
    def recurrences(s, B, T):
        """the invariant: every cell that earlier iterations wrote, and the `reach` cells before the first one, hold value(path)"""
        k = s.k; s.ih = []
        for w in B['writes']:
            r = s.ex.recur.get(w.fam)
            if r is None or w.kind != 'st': continue
            dim, reach = r[:2]; c, d = lin(w.path[dim])
            if d.get(k) != 1 or any(k in x.fv for x in d if x is not k): continue
            if any(k in x.fv for j, x in enumerate(w.path) if j != dim): s.unsup('recurrence moves in two dimensions')
            near = lambda path: path is not None and (lambda e: e.op == 'c' and 0 < e.a[0] <= reach)(sub(w.path[dim], path[dim]))
            if not any(x[0] is w.fam and near(x[1]) for x in B['reads']): continue
            s.ih.append((w, bound_var(), reach))
        return bool(s.ih)
    def template(s, w):
        """the guard of a write without the loop's own domain"""
        gd = andl(x for x in conj(s.clean(w.guard)) if s.k not in x.fv)
        return gd
    def put_hypothesis(s, w, kp, reach, g):
        from .sym import Ent
        dim, _, V, _ = s.ex.recur[w.fam]; m = {s.k: sub(kp, ic(reach))}; S = lambda x: subst(x, m)
        e = Ent('st', andl([g, s.template(w), lt(sub(kp, ic(reach)), s.k)]), tuple(S(x) for x in w.path), w.off, w.size, V(tuple(S(x) for x in w.path)), w.ty)
        e.rawpath = tuple(S(x) for x in w.rawpath); e.rawoff = S(w.rawoff); e.qv = w.qv + (kp,)
        s.ex._push(w.fam, e)
    def hypothesised(s, w, path):
        """reads a cell that the invariant describes (or one at or after the written index)"""
        if not any(x[0].fam is w.fam for x in s.ih): return False
        dim, reach = s.ex.recur[w.fam][:2]; d = sub(w.path[dim], path[dim])
        return d.op == 'c' and 0 < d.a[0] <= reach
    def preserved(s, B, T):
        from . import prove
        ex = s.ex; k = s.k
        groups = {}
        for w in B['writes']:
            if any(x[0].fam is w.fam for x in s.ih): groups.setdefault((w.fam, w.path, w.off, w.qv), []).append(w)
        for W in groups.values():
            w = W[0]; dim, reach, V, rec = ex.recur[w.fam]
            c, d = lin(w.path[dim])
            if any(v.kind != 'st' for v in W) or d.get(k) != 1: s.unsup('a write outside the recurrence')
            dom = and_(le0(neg(k)), lt(k, T))
            rests = [andl(x for x in conj(s.clean(v.guard)) if s.k in x.fv and under(x, dom) is not TRUE) for v in W]
            if TRUE not in rests:
                anyof = FALSE
                for r in rests: anyof = or_(anyof, r)
                if anyof is not TRUE and prove.prove(anyof, andl([s.g, s.template(w), dom]), ex.facts).ok is not True: s.unsup('a recurrence step that is conditional')
            nm = '%s in %s' % (w.fam.name, s.F.name); key = (s.F.name, s.L.header, w.fam.name, tuple(x for j, x in enumerate(w.path) if j != dim and x.op == "c"))
            for n_, v in enumerate(W):
                gs = andl([s.g, v.guard, dom] + [not_(x.guard) for x in W[n_+1:]])        # the last value of the iteration counts
                if gs is FALSE: continue
                ex.invobl[key + ('step', n_)] = ('recurrence step of ' + nm + (' [%d]' % n_ if len(W) > 1 and TRUE not in rests else ''), prove.prove_eq(v.val, rec(w.path), gs, ex.facts))
            for j in range(1, reach + 1):
                m = {k: ic(-j)}; pt = tuple(subst(x, m) for x in w.path)
                g0 = andl([s.g, s.template(w), lt(ZERO, T)])
                v = ex._lookup(w.fam, pt, w.off, w.size, tuple(subst(x, m) for x in w.rawpath), subst(w.rawoff, m), w.ty, g0, None)
                ex.invobl[key + (j,)] = ('recurrence start %d of %s' % (j, nm), prove.prove_eq(v, rec(pt), g0, ex.facts))
            for v in W: v.val = V(w.path)

    def step(s, init, d):
        if init.s == 'p': return s.ex.padd(init, d)
        return add(init, d)

    def trip(s, stay, k):
        """stay(k) -> T with stay(j) for all 0<=j<T and not stay(T)"""
        def one(l):
            if l is TRUE: return 'inf'
            if l.op in ('le0', 'not') :
                neg_ = l.op == 'not'; a = l.a[0] if neg_ else l
                if a.op == 'le0':
                    t = a.a[0]; c, d = lin(t); q = d.get(k)
                    if q is None or any(k in x.fv for x in d if x is not k): return None
                    d = dict(d); del d[k]; b = mklin(c, d)
                    # neg_: q*k + b >= 1
                    if not neg_ and q > 0:
                        # k <= -b/q
                        if q == 1: return sub(ONE, b)
                        return app_floor(neg(b), q)
                    if neg_ and q < 0:
                        # |q| k <= b-1
                        if q == -1: return b
                        return app_floor(sub(b, ONE), -q)
                    return None
                if a.op == 'eq0' and neg_:
                    t = a.a[0]; c, d = lin(t); q = d.get(k)
                    if q not in (1, -1) or any(k in x.fv for x in d if x is not k): return None
                    d = dict(d); del d[k]; b = mklin(c, d)
                    v = scale(-q, b)
                    lo, hi = rng(v)
                    if lo >= 0 or under(le0(neg(v)), s.g) is TRUE or (s.ex.solver and s.ex.solver(and_(s.g, not_(le0(neg(v)))))): return v
                    return None
            return None
        def app_floor(b, q):
            t = tdiv(b, ic(q))
            lo, hi = rng(b)
            if lo >= 0: return add(t, ONE)
            return ite(le0(neg(b)), add(t, ONE), ZERO)
        if k not in stay.fv:
            return None
        if stay.op == 'and':
            ts = []
            for l in stay.a:
                if k not in l.fv: return None
                t = one(l)
                if t is None: return None
                ts.append(t)
            r = ts[0]
            for t in ts[1:]: r = ite(le(r, t), r, t)
            return r
        return one(stay)

    def Tpos(s, T):
        c = under(le0(neg(T)), s.g)
        if c is TRUE: return T
        if rng(T)[0] >= 0: return T
        if s.ex.solver and s.ex.solver(and_(s.g, not_(c))): return T
        return ite(c, T, ZERO)

    def accumulator(s, X, back, init, otherv, T, cell=None):
        """closed form: function of the iteration number -> value, or None"""
        k = s.k
        if back is None: return lambda n: init
        if s.mentions(back, otherv): return None
        isum_, dsum_ = isum, dsum
        if X.s == 'i':
            d = s.iminus(back, X)
            if d is not None and not s.mentions(d, [X]):
                def f(n, d=d): return s.sum_upto(n, d, isum, add, init)
                return f
            y = back
            while y.op in ('zext', 'sext'): y = y.a[0]
            if y.op == 'bor':       # accumulated flags: bit by bit, some iteration set it
                xs = lambda t: t.a[0] if t.op in ('zext', 'sext') else t
                fs = [q for q in y.a if xs(q) is not X]
                if len(fs) == 1 and not s.mentions(fs[0], [X]):
                    f = fs[0]; (l0, h0), (l1, h1) = rng(init), rng(f)
                    if min(l0, l1) >= 0 and max(h0, h1) <= 127:
                        def fbor(n):
                            r = ZERO
                            for b in range(max(h0, h1).bit_length()):
                                j = bound_var()
                                r = add(r, ite(or_(bit(init, b), exists(j, n, subst(bit(f, b), {k: j}))), ic(1 << b), ZERO))
                            return r
                        return fbor
        if X.s == 'd':
            d = s.dminus(back, X)
            if d is not None and not s.mentions(d, [X]):
                return lambda n, d=d: s.sum_upto(n, d, dsum, dadd, init)
            r = s.dratio(back, X)
            if r is not None and not s.mentions(r, [X]):
                def fp_(n, r=r):
                    j = bound_var()
                    return dmul(init, dprod(j, n, subst(r, {k: j})))
                return fp_
        if X.s == 'b' or X.s in 'ipd':
            # flag: ite(c(k), const, X)
            if X.s == 'b':
                one = subst(back, {X: TRUE}); zero = subst(back, {X: FALSE})
                if one is TRUE and not s.mentions(zero, [X]):
                    def fb(n):
                        j = bound_var(); return or_(init, exists(j, n, subst(zero, {k: j})))
                    return fb
                if zero is FALSE and not s.mentions(one, [X]):
                    def fc(n):
                        j = bound_var(); return and_(init, forall(j, n, subst(one, {k: j})))
                    return fc
            elif back.op == 'ite':
                c, a, b = back.a
                if b is X and k not in a.fv and not s.mentions(a, [X]) and not s.mentions(c, [X]):
                    def fi(n):
                        j = bound_var(); return ite(exists(j, n, subst(c, {k: j})), a, init)
                    return fi
                if a is X and k not in b.fv and not s.mentions(b, [X]) and not s.mentions(c, [X]):
                    def fj(n):
                        j = bound_var(); return ite(exists(j, n, not_(subst(c, {k: j}))), b, init)
                    return fj
                for cc, new, x in ((c, a, b), (not_(c), b, a)):
                    if x is X and k not in cc.fv and not s.mentions(new, [X]) and not s.mentions(cc, [X]):
                        # overwritten in every iteration when c holds: the value of the previous iteration
                        def fo(n, cc=cc, new=new):
                            zz = under(le0(n), and_(s.g, le0(neg(n))))
                            return ite(zz, init, ite(cc, subst(new, {k: sub(n, ONE)}), init))
                        return fo
                # running maximum/minimum etc. are not supported
        if not s.mentions(back, [X]):
            # value of the previous iteration
            def fl(n):
                z = le0(n)
                zz = under(z, and_(s.g, le0(neg(n))))
                return ite(zz, init, subst(back, {k: sub(n, ONE)}))
            return fl
        return None
    def havoc(s, X, back, init):
        """a recurrence without a closed form: any value (an over-approximation; a failure that mentions it decides nothing)"""
        if any(p.op == 'ptr' for p in (X, init)) or X.s == 'p':
            if getattr(s.ex, 'ptr_havoc', False):
                from .sym import Fam
                o = ptr(Fam(s.ex.fresh('loopptr')))
                return lambda n: o
            return None
        nm = s.ex.fresh('HAVOC'); ar = tuple(sorted((init.fv | back.fv) - {s.k, X}, key=lambda v: v.uid))
        if any(v.op != 'k' for v in ar): ar = tuple(v for v in ar if v.op == 'k')
        return lambda n: ite(le0(n), init, app(nm, ar + (n,), X.s))
    def sum_upto(s, n, d, S, A, init):
        j = bound_var()
        return A(init, S(j, n, subst(d, {s.k: j})))
    def iminus(s, b, X):
        if b.op == 'ite' and not s.mentions(b.a[0], [X]):
            p, q = s.iminus(b.a[1], X), s.iminus(b.a[2], X)
            return None if p is None or q is None else ite(b.a[0], p, q)
        d = sub(b, X)
        return None if s.mentions(d, [X]) else d
    def dminus(s, b, X):
        if b is X: return D0
        if b.op == 'dadd':
            if b.a[0] is X: return b.a[1]
            if b.a[1] is X: return b.a[0]
            for i in (0, 1):
                r = s.dminus(b.a[i], X)
                if r is not None and not s.mentions(b.a[1-i], [X]): return dadd(r, b.a[1-i])
        if b.op == 'ite':
            p, q = s.dminus(b.a[1], X), s.dminus(b.a[2], X)
            if p is not None and q is not None and not s.mentions(b.a[0], [X]): return ite(b.a[0], p, q)
        return None
    def dratio(s, b, X):
        if b is X: return D1
        if b.op == 'dneg':
            r = s.dratio(b.a[0], X)
            return None if r is None else dneg(r)
        if b.op == 'dmul':
            for i in (0, 1):
                r = s.dratio(b.a[i], X)
                if r is not None and not s.mentions(b.a[1-i], [X]): return dmul(r, b.a[1-i])
        if b.op == 'ddiv':
            r = s.dratio(b.a[0], X)
            if r is not None and not s.mentions(b.a[1], [X]): return ddiv(r, b.a[1])
        if b.op == 'ite':
            p, q = s.dratio(b.a[1], X), s.dratio(b.a[2], X)
            if p is not None and q is not None and not s.mentions(b.a[0], [X]): return ite(b.a[0], p, q)
        return None
    def mentions(s, t, vs):
        pv = set(); names = set()
        for p in vs:
            pv.add(p)
            if p.op == 'ptr':
                for x in lin(p.a[2])[1]:
                    if x.op == 'v' and str(x.a[0]).startswith('X'): pv.add(x)
            if p.op == 'app': names.add(p.a[0])
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x in pv: return True
            if x.op == 'app' and x.a[0] in names: return True
            st.extend(subterms(x))
        return False

    # ------------------------------------------------------------ independence of iterations
    def hazards(s, B, T):
        k = s.k; k2 = bound_var()
        ren = {k: k2}
        ww = B['writes']
        by = {}
        for w in ww: by.setdefault(w.fam, []).append(w)
        base = andl([le0(neg(k)), lt(k, k2), lt(k2, T)])
        seen = set()
        for (fam, path, r, size, rp, ro, g, tm) in B['reads']:
            for w in by.get(fam, ()):
                key = (id(w), path, r, rp, ro)
                if key in seen: continue
                seen.add(key)
                if s.in_cell(w): continue
                if path is not None and s.hypothesised(w, path): continue
                if w.kind == 'st' and path is not None and k not in w.off.fv and all(k not in x.fv for x in w.path) and w.off is r and w.path == path and not w.qv:
                    # same cell each iteration
                    if w.time <= tm and under(w.guard, g) is TRUE: continue        # written before being read
                    if any(x.time <= tm and x.kind == 'st' and x.path == path and x.off is r and not x.qv and under(x.guard, g) is TRUE for x in by[fam]): continue
                    if fam.scratch and s.ex.solver is not None and s.ex.solver(and_(and_(s.g, g), not_(orl([x.guard for x in by[fam] if x.time <= tm and x.kind == 'st' and x.path == path and x.off is r and not x.qv])))): continue
                    return Cell(fam, w.rawpath, w.rawoff, w.path, w.off, w.ty, (), TRUE)
                c = s.alias(w, path, r, size, rp, ro, g, ren, base)
                if c is FALSE: continue
                if s.ex.solver is not None and s.ex.solver(andl([c, s.g])): continue
                # covered by an earlier unconditional write of the same iteration?
                if any(s.covers(x, path, r, rp, ro, g, tm) for x in by[fam]): continue
                if w.kind == 'st' and k not in w.off.fv and all(k not in x.fv for x in w.path):
                    # vector of accumulators
                    if w.qv:
                        gd = andl(x for x in conj(w.guard) if k not in x.fv and any(v in x.fv for v in w.qv))
                        return Cell(fam, w.rawpath, w.rawoff, w.path, w.off, w.ty, w.qv, gd)
                    if all(x is y for x, y in zip(w.path, path or ())) and path and len(path) == len(w.path) and w.off is r:
                        return Cell(fam, w.rawpath, w.rawoff, w.path, w.off, w.ty, (), TRUE)
                    return Cell(fam, w.rawpath, w.rawoff, w.path, w.off, w.ty, (), TRUE)
                s.unsup('loop-carried dependence through %s: write %s+%s, read %s+%s' % (fam.name, [pp(x) for x in w.path or ()], w.off and pp(w.off), [pp(x) for x in path or ()], r is not None and pp(r)))
        # write-write order: a write of a later iteration must not be overridden by an earlier one
        for fam, ws in by.items():
            if fam.scratch: continue          # contents after the loop are unspecified (emit)
            for i, w1 in enumerate(ws):
                for w2 in ws[i+1:]:
                    # w1 in iteration k2 (later), w2 in iteration k (earlier) hit the same cell
                    if w1.kind == 'havoc' or w2.kind == 'havoc': s.unsup('havoc in loop')
                    p1 = w1.path if w1.kind == 'st' else None
                    c = s.alias(w2, p1, w1.off if w1.kind == 'st' else None, w1.size, w1.rawpath, w1.rawoff, w1.guard, ren, base, w1)
                    if c is FALSE: continue
                    # same constant cell: only matters when w2 does not always follow
                    if w1.kind == 'st' and w2.kind == 'st' and w1.path == w2.path and w1.off is w2.off and under(w2.guard, w1.guard) is TRUE: continue
                    if w1.kind == 'st' and w2.kind == 'st' and w1.val is w2.val and k not in w1.val.fv and not w1.qv and not w2.qv: continue
                    if s.ex.solver is not None and s.ex.solver(andl([c, s.g])): continue
                    s.unsup('iterations overwrite each other in %s' % fam.name)
        return None
    def in_cell(s, w):
        if w.kind != 'st': return False
        for c in s.cells:
            if c.fam is w.fam and len(c.qv) == len(w.qv):
                m = dict(zip(w.qv, c.qv))
                if all(subst(x, m) is y for x, y in zip(w.path, c.path)) and subst(w.off, m) is c.off: return True
        return False
    def covers(s, x, path, r, rp, ro, g, tm):
        if x.time > tm: return False
        try:
            if path is None: return x.kind in ('copy', 'fill') and False
            m = s.ex.match(x, path, r, 8, rp, ro, g)
        except Exception: return False
        return m is not None and under(m[0], g) is TRUE
    def alias(s, w, path, r, size, rp, ro, g, ren, base, other=None):
        """condition under which write w (iteration k) touches the location (iteration k2)"""
        r2 = {}
        for v in w.qv: r2[v] = bound_var(*rng(v))
        def W(x): return subst(x, r2) if r2 else x
        orn = dict(ren)
        if other is not None:
            for v in other.qv: orn[v] = bound_var(*rng(v))
        def O(x): return subst(x, orn)
        c = and_(base, and_(W(s.clean(w.guard)), O(s.clean(g))))
        if c is FALSE: return FALSE
        if w.kind == 'st' and path is not None:
            for x, y in zip(w.path, path): c = and_(c, eq(W(x), O(y)))
            if w.off is not r: 
                d = sub(W(w.off), O(r))
                if d.op == 'c':
                    if d.a[0] >= size or -d.a[0] >= w.size: return FALSE
                else: c = and_(c, eq0(d))
            return c
        # ranges
        for x, y in zip(w.rawpath, rp): c = and_(c, eq(W(x), O(y)))
        ln1 = W(w.size) if isinstance(w.size, T) else ic(w.size)
        ln2 = O(size) if isinstance(size, T) else ic(size)
        a, b = W(w.rawoff), O(ro)
        fam = w.fam
        if fam.flat is not None and fam.flat.op != 'c':
            # whole rows: compare rows
            pa, _ = s.ex.norm(fam, (), a, 8); pb, _ = s.ex.norm(fam, (), b, 8)
            q1, ok1 = s.ex.divn(ln1, fam.flat, fam.S or 8); q2, ok2 = s.ex.divn(ln2, fam.flat, fam.S or 8)
            h1 = add(pa[0], q1) if ok1 else add(pa[0], ONE); h2 = add(pb[0], q2) if ok2 else add(pb[0], ONE)
            return andl([c, lt(pa[0], h2), lt(pb[0], h1)])
        return andl([c, lt(a, add(b, ln2)), lt(b, add(a, ln1))])
    def clean(s, g):
        gs = gset(s.g)
        return andl(x for x in conj(g) if x not in gs)

    # ------------------------------------------------------------ result
    def finish(s, B, T, header_exit, vals, accs, ind, others, cellfin):
        from .sym import Edge, Ent
        ex, k, g = s.ex, s.k, s.g
        dom = and_(le0(neg(k)), lt(k, T))
        early = []
        for tgt, es in B['exits'].items():
            for e in es:
                c = s.clean(e.g); c = under_all(c, dom)
                if c is FALSE: continue
                if header_exit and c is FALSE: continue
                early.append((tgt, c, e))
        rets = [(s.clean(gg), v) for gg, v in B['ret']]
        rets = [(under_all(c, dom), v) for c, v in rets]
        dead = [under_all(s.clean(c), dom) for c in B['extra']['dead']]
        ec = orl([c for _, c, _ in early] + [c for c, _ in rets])
        if ec is not FALSE and ex.solver is not None and ex.solver(andl([g, dom, ec])): ec = FALSE; early = []; rets = []
        bound = T
        if ec is FALSE:
            if not header_exit:
                if T.op == 'c' and T.a[0] == 1 << 30: s.unsup('loop without recognised exit')
            E = None
        else:
            exv = exists(k, T, ec)
            E = first(k, T, ec)
            ex.facts.append(('first', E, T, exv))
            bound = E if not header_exit and T.op == 'c' and T.a[0] == 1 << 30 else ite(exv, E, T)
            if not header_exit:
                # the loop only terminates through this exit
                exv = TRUE; bound = E
        n = s.Tpos(bound) if E is None else (ite(exv, E, s.Tpos(T)) if exv is not TRUE else E)
        # record the full iterations' writes
        kk = bound_var()
        dk = and_(le0(neg(kk)), lt(kk, n if E is not None else bound))
        ren = {k: kk}
        ex_m = None
        for key, lst in B['extra'].items():
            if key == 'dead': tgtl = ex.dead
            else: tgtl = getattr(ex, key)
            for x in lst:
                if key == 'facts': tgtl.append(('forall', kk, dk, self_subst(x, ren)) if type(x) is not T_ else x); continue
                if key == 'dead':
                    ec_ = exists(kk, n if E is not None else bound, subst(s.clean(x), ren))
                    tgtl.append(and_(g, ec_)); continue
                if key in ('uninit', 'derefnull'):
                    tgtl.append((and_(subst(x[0], ren), dk),) + tuple(x[1:])); continue
                if key == 'allocs':
                    s.unsup('allocation in summarised loop')
                tgtl.append(('loop', kk, dk, self_subst(x, ren), n if E is not None else bound))
        for w in B['writes']:
            if s.in_cell(w): continue
            s.emit(w, kk, ren, dk, n if E is not None else s.Tpos(bound), g)
        for c, f in zip(s.cells, cellfin):
            nn = n
            v = f(nn)
            e = Ent('st', and_(g, c.guard), c.path, c.off, ex.sizeof(c.ty), v, c.ty); e.rawpath, e.rawoff, e.qv = c.rawpath, c.rawoff, c.qv
            ex._push(c.fam, e)
        # reads of the loop body, for enclosing summaries
        if ex.reads is not None:
            for (fam, path, r, size, rp, ro, gg, tm) in B['reads']:
                if fam.scratch and any(x.fam is fam and s.covers(x, path, r, rp, ro, gg, tm) for x in B['writes']): continue      # reads what this iteration wrote
                st_ = lambda x: subst(x, ren) if x is not None and isinstance(x, T_) else x
                ex.reads.append((fam, None if path is None else tuple(st_(x) for x in path), st_(r), st_(size), tuple(st_(x) for x in rp), st_(ro), and_(subst(gg, ren), dk), tm if tm <= B['t0'] else 0))
        # leave the loop: run the header (or the partial last iteration) at iteration n
        fin = {}
        for I in s.phis:
            if I in others: v = accs[I.res](n)
            elif I.res in ind: v = s.step(s.init[I.res], mul(ind[I.res], n))
            else: v = s.init[I.res]
            if v is None: s.unsup('final value')
            fin[I.res] = v
        if E is None:
            out = s._final_header(fin)
            s.result = out
            return
        # normal exit
        res = {}
        env0 = dict(s.env)
        if header_exit and exv is not TRUE:
            gn = and_(g, not_(exv))
            nT = s.Tpos(T)
            fT = {}
            for I in s.phis:
                if I in others: v = accs[I.res](nT)
                elif I.res in ind: v = s.step(s.init[I.res], mul(ind[I.res], nT))
                else: v = s.init[I.res]
                fT[I.res] = v
            for t, es in s._final_header(fT, gn).items(): res.setdefault(t, []).extend(es)
            envT = dict(s.env)
        ge = and_(g, exv)
        fE = {}
        for I in s.phis:
            if I in others: v = accs[I.res](E)
            elif I.res in ind: v = s.step(s.init[I.res], mul(ind[I.res], E))
            else: v = s.init[I.res]
            fE[I.res] = v
        ge2 = and_(ge, subst(dom, {k: E})) if False else ge
        env = dict(s.env); ret = []
        facts0 = andl([le0(neg(E)), lt(E, T)])
        single = len(early) + len(rets) == 1
        grun = and_(ge, facts0)
        out = ex.run_region(s.R, [Edge(grun, {})], env, ret, phi_override=fE)
        out.pop(s.L.header, None)
        drop = set(conj(facts0))
        for t, es in out.items():
            for e in es:
                if e.g is FALSE: continue
                if single: gg = ge
                else: gg = and_(ge, andl(x for x in conj(e.g) if x not in drop))
                c = and_(gg, TRUE)
                if header_exit and t in s.F.blocks[s.L.header].succs and t not in s.L.blocks:
                    # the header exit at E < T cannot be taken
                    if not any(tt == t and ee is not None for tt, cc, ee in early): continue
                res.setdefault(t, []).append(Edge(c, e.phis))
        for gg, v in ret:
            if gg is FALSE: continue
            s.ret.append((ge if single else and_(ge, andl(x for x in conj(gg) if x not in drop)), v))
        # values defined in the loop and used after it flow through lcssa phis on the exit edges
        s.env.update({k_: v_ for k_, v_ in env.items() if k_ not in s.env})
        s.result = res

    def _final_header(s, fin, g=None):
        """execute the header a last time, its exit being taken"""
        from .sym import Edge
        ex = s.ex; g = s.g if g is None else g
        env = dict(s.env); env.update(fin)
        b = s.F.blocks[s.L.header]
        ex.run_block(s.F, b, g, env)
        s.env.update({k_: v_ for k_, v_ in env.items()})
        out = {}
        for t in b.succs:
            if t in s.L.blocks: continue
            out.setdefault(t, []).append(Edge(g, ex.phivals(s.F, b.name, t, env)))
            break
        if not out:
            s.unsup('exit without header')
        return out

    def emit(s, w, kk, ren, dk, n, g):
        from .sym import Ent
        ex = s.ex
        uses = kk_in(w, s.k)
        e = Ent(w.kind, None, None, None, w.size, w.val, w.ty)
        e.inst = w.inst
        if w.fam.scratch and not uses and w.kind == 'st' and w.ty.k == 'double':
            e.guard = and_(g, lt(ZERO, n)); e.val = app(ex.fresh('HAVOC'), tuple(w.qv), 'd')
            e.path, e.off, e.rawpath, e.rawoff, e.qv = w.path, w.off, w.rawpath, w.rawoff, w.qv
            ex._push(w.fam, e); return
        if not uses and w.kind != 'havoc':
            # the same location in every iteration: the last iteration counts
            if s.k in w.guard.fv:
                rest = s.clean(w.guard)
                gk = andl(x for x in conj(rest) if s.k in x.fv and under(x, and_(le0(neg(s.k)), lt(s.k, n))) is not TRUE)
                if gk is not TRUE:
                    if isinstance(w.val, T_) and s.k not in w.val.fv:
                        j = bound_var()
                        gd = andl([x for x in conj(rest) if s.k not in x.fv] + [exists(j, n, subst(gk, {s.k: j}))])
                        e.guard = and_(g, gd)
                        e.path, e.off, e.rawpath, e.rawoff, e.qv = w.path, w.off, w.rawpath, w.rawoff, w.qv
                        ex._push(w.fam, e); return
                    if isinstance(w.val, T_) and w.val.s in 'id':
                        j = bound_var(); ar = tuple(v for v in sorted((w.val.fv | w.guard.fv | n.fv) - {s.k}, key=lambda v: v.uid) if v.op == 'k')
                        gd = andl([x for x in conj(rest) if s.k not in x.fv] + [exists(j, n, subst(gk, {s.k: j}))])
                        e.guard = and_(g, gd); e.val = app(ex.fresh('HAVOC'), ar, w.val.s)
                        e.path, e.off, e.rawpath, e.rawoff, e.qv = w.path, w.off, w.rawpath, w.rawoff, w.qv
                        ex._push(w.fam, e); return
                    s.unsup('conditional store to one location in a loop (%s)' % w.fam.name)
            last = {s.k: sub(n, ONE)}
            e.guard = and_(and_(g, lt(ZERO, n)), andl(x for x in conj(subst(w.guard, last))))
            e.val = subst(w.val, last) if isinstance(w.val, T_) else w.val
            e.path, e.off, e.rawpath, e.rawoff, e.qv = w.path, w.off, w.rawpath, w.rawoff, w.qv
            ex._push(w.fam, e); return
        S = lambda x: subst(x, ren) if isinstance(x, T_) else x
        e.guard = and_(and_(g, dk), S(w.guard))
        e.path = tuple(S(x) for x in w.path) if w.path is not None else None
        e.off = S(w.off); e.rawpath = tuple(S(x) for x in w.rawpath); e.rawoff = S(w.rawoff)
        e.val = S(w.val); e.size = S(w.size)
        e.qv = w.qv + (kk,)
        if w.kind == 'havoc': s.unsup('havoc in loop')
        ex._push(w.fam, e)

def dprod(k, hi, body):
    if hi.op == 'c' and hi.a[0] <= 64:
        r = D1
        for j in range(max(0, hi.a[0])): r = dmul(r, subst(body, {k: ic(j)}))
        return r
    if body is D1: return D1
    from .terms import _bind
    return _bind('dprod', k, hi, body, 'd')
def _rb_dprod(t, f):
    k = bound_var(); a = t.a
    return dprod(k, f(a[1]), f(subst(a[2], {a[0]: k})))
_tm._rebuild_ext['dprod'] = _rb_dprod

T_ = _tm.T
def kk_in(w, k):
    if any(k in x.fv for x in (w.path or ())): return True
    if any(k in x.fv for x in (w.rawpath or ())): return True
    if w.off is not None and k in w.off.fv: return True
    if w.rawoff is not None and k in w.rawoff.fv: return True
    return False
def self_subst(x, ren):
    if isinstance(x, T_): return subst(x, ren)
    if type(x) is tuple: return tuple(self_subst(y, ren) for y in x)
    if type(x) is list: return [self_subst(y, ren) for y in x]
    return x
def under_all(c, dom):
    return under(c, dom)
def sort_of_ty(ty):
    from .sym import sort_of
    return sort_of(ty)
