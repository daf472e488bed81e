"""Deciding back ends: z3 for integer/boolean/pointer obligations, exact rational normal forms and
random evaluation (polynomial identity testing) for real and matrix identities."""
import z3, random, hashlib, time, os
import mpmath
from fractions import Fraction
from .terms import *
from . import terms as TM

class Z:
    """translation of terms into z3"""
    def __init__(s):
        s.memo = {}; s.side = []; s.fn = {}; s.opaque = {}; s.sided = set()
        s.bound = {}; s.inexact = False
    def f(s, name, n, so):
        k = (name, n, so)
        if k not in s.fn:
            R = {'i': z3.IntSort(), 'b': z3.BoolSort(), 'd': z3.RealSort(), 'p': z3.IntSort(), 'm': z3.IntSort()}[so]
            if n == 0: s.fn[k] = z3.Const(name, R)
            else: s.fn[k] = z3.Function(name, *([z3.IntSort()]*n + [R]))
        return s.fn[k]
    def fapp(s, name, args, so):
        args = [s.asint(a) for a in args]
        f = s.f(name, len(args), so)
        return f(*args) if args else f
    def asint(s, a):
        if a.sort() == z3.BoolSort(): return z3.If(a, 1, 0)
        if a.sort() == z3.RealSort(): return s.f('real2int', 1, 'i') if False else z3.ToInt(a)
        return a
    def fact(s, c, t):
        """a range fact about term t (asserted globally when closed, otherwise attached at use)"""
        if not t.fv: s.side.append(c)
        else: s.pend.append(c) if hasattr(s, 'pend') and s.pend is not None else None
    def tr(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s._tr(t)
        return r
    def _tr(s, t):
        op, a = t.op, t.a; tr = s.tr
        if op == 'c': return z3.IntVal(a[0])
        if op == 'lin':
            return z3.Sum([z3.IntVal(a[0])] + [k*s.asint(tr(x)) if k != 1 else s.asint(tr(x)) for x, k in a[1]])
        if op == 'mono':
            r = tr(a[0])
            for x in a[1:]: r = r*tr(x)
            return r
        if op == 'mulx': return tr(a[0])*tr(a[1])
        if op == 'v':
            r = s.f('v:' + str(a[0]), 0, t.s)
            if t.s == 'i' and t.rng is not None: s.side.append(z3.And(r >= t.rng[0], r <= t.rng[1]))
            return r
        if op == 'k':
            r = z3.Int('k:' + str(a[0]))
            return r
        if op == 'bv': return z3.Bool('b:' + a[0])
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'undef': return s.fapp('undef_%s' % t.s, [], t.s)
        if op in ('app', 'appr'):
            nm = a[0]; args = [tr(x) for x in (a[1:-1] if op == 'appr' else a[1:]) if type(x) is T]
            r = s.fapp('f:' + nm, args, t.s)
            if op == 'appr': s.fact(z3.And(r >= a[-1][0], r <= a[-1][1]), t)
            return r
        if op == 'ite':
            x, y = tr(a[1]), tr(a[2])
            if t.s == 'i': x, y = s.asint(x), s.asint(y)
            return z3.If(tr(a[0]), x, y)
        if op == 'le0': return tr(a[0]) <= 0
        if op == 'eq0': return tr(a[0]) == 0
        if op == 'not': return z3.Not(tr(a[0]))
        if op == 'and': return z3.And(*[tr(x) for x in a])
        if op == 'or': return z3.Or(*[tr(x) for x in a])
        if op == 'bit':
            x = tr(a[0])
            return s.f('bit', 2, 'b')(x, z3.IntVal(a[1]))
        if op in ('band', 'bor', 'bxor', 'sum', 'p2i', 'd2i', 'first') or t.s == 'i' and op not in ('div', 'rem', 'zext'): s.inexact = True
        if op in ('band', 'bor', 'bxor', 'zext', 'sext', 'div', 'rem', 'first', 'sum', 'p2i', 'd2i') or (t.s == 'i'):
            if op == 'div' and a[1].op == 'c':
                x, d = tr(a[0]), a[1].a[0]
                q = z3.If(x >= 0, x/abs(d), -((-x)/abs(d)))
                return q if d > 0 else -q
            if op == 'rem' and a[1].op == 'c':
                x, d = tr(a[0]), abs(a[1].a[0])
                return z3.If(x >= 0, x % d, -((-x) % d))
            if op == 'zext': return tr(a[0]) % (1 << a[1])
            if op == 'first':
                fv = sorted(t.fv, key=lambda z: z.uid)
                r = s.fapp('first:%d' % t.uid, [tr(x) for x in fv], 'i')
                if not fv: s.first_axiom(t, r)
                return r
            fv = sorted(t.fv, key=lambda z: z.uid)
            r = s.fapp('op:%d' % t.uid, [tr(x) for x in fv], 'i')
            lo, hi = rng(t)
            if lo > -INF: s.fact(r >= lo, t)
            if hi < INF: s.fact(r <= hi, t)
            return r
        if op == 'ex':
            k, hi, body = a
            kv = z3.Int('k:' + str(k.a[0]))
            old = getattr(s, 'pend', None); s.pend = []
            # canonical variables are reused at different depths: translate with a private memo
            b = tr(body); h = tr(hi)
            s.pend = old
            return z3.Exists([kv], z3.And(kv >= 0, kv < h, b))
        if op == 'dc': return z3.RealVal(str(a[0]))
        if op == 'dadd': return tr(a[0]) + tr(a[1])
        if op == 'dmul': return tr(a[0])*tr(a[1])
        if op == 'dneg': return -tr(a[0])
        if op == 'ddiv': return tr(a[0])/tr(a[1])
        if op == 'dlt': return tr(a[0]) < tr(a[1])
        if op == 'deq': return tr(a[0]) == tr(a[1])
        if op == 'i2d': return z3.ToReal(s.asint(tr(a[0])))
        if op == 'fn':
            s.inexact = s.inexact or a[0] != 'abs'
            args = [tr(x) for x in a[1:]]
            k = ('fn', a[0], len(args))
            if k not in s.fn: s.fn[k] = z3.Function('fn:' + a[0], *([z3.RealSort()]*(len(args)+1)))
            if a[0] == 'abs': return z3.If(args[0] >= 0, args[0], -args[0])
            return s.fn[k](*args)
        if op == 'null': return z3.IntVal(0)
        if op == 'fnp':
            return z3.Int('fnp:' + a[0])
        if op == 'ptr':
            return s.fapp('ptr:%d' % a[0].id, [tr(x) for x in a[1]] + [tr(a[2])], 'p')
        if op == 'peq': return tr(a[0]) == tr(a[1])
        s.inexact = True
        fv = sorted(t.fv, key=lambda z: z.uid)
        return s.fapp('op:%d' % t.uid, [tr(x) for x in fv], t.s)
    def first_axiom(s, t, r):
        k, hi, body = t.a
        h = s.tr(hi)
        kv = bound_var()
        ex = exists(kv, hi, subst(body, {k: kv}))
        e = s.tr(ex)
        # 0<=r<hi & body(r) when one exists, and no smaller index
        b = subst(body, {k: mk('v', ('first#%d' % t.uid,), 'i')})
        rv = s.tr(mk('v', ('first#%d' % t.uid,), 'i'))
        s.side.append(rv == r); s.side.append(r >= 0)
        s.side.append(z3.Implies(e, z3.And(r >= 0, r < h, s.tr(b))))
        bb = s.tr(body); kz = z3.Int('k:' + str(k.a[0]))
        s.side.append(z3.Implies(e, z3.ForAll([kz], z3.Implies(z3.And(kz >= 0, kz < r), z3.Not(bb)))))

_stats = dict(z3=0, z3_time=0.0)
def z3_check(conds, facts=(), timeout=20000, want_model=False):
    """-> 'unsat' | 'sat' | 'unknown' (and the model)"""
    t0 = time.time()
    Zt = Z(); so = z3.Solver(); so.set('timeout', timeout); so.set('random_seed', 1)
    cs = [Zt.tr(c) for c in conds if c is not TRUE]
    for f in facts:
        so.add(fact_z3(Zt, f))
    for c in cs: so.add(c)
    for c in conds:
        for v in c.fv:
            if v.op == 'k': so.add(Zt.tr(v) >= max(0, rng(v)[0]))
    for c in Zt.side: so.add(c)
    r = so.check()
    _stats['z3'] += 1; _stats['z3_time'] += time.time() - t0
    r = str(r)
    if want_model: return r, (so.model() if r == 'sat' else None), Zt
    return r
def fact_z3(Zt, f):
    """facts: a boolean term, or ('forall', vars, body)"""
    if type(f) is tuple and f[0] == 'all':
        vs = [z3.Int('k:' + str(v.a[0])) for v in f[1]]
        b = Zt.tr(f[2])
        return z3.ForAll(vs, b)
    if type(f) is tuple: Zt.inexact = True; return z3.BoolVal(True)
    return Zt.tr(f)

def make_solver(facts, timeout=2000):
    memo = {}; st = []
    def solver(cond):
        """True when cond is certainly impossible"""
        if cond is FALSE: return True
        r = memo.get(cond)
        if r is not None: return r
        t0 = time.time()
        if not st:
            Zt = Z(); so = z3.Solver(); so.set('timeout', timeout); so.set('random_seed', 1)
            for f in facts: so.add(fact_z3(Zt, f))
            st[:] = [Zt, so, 0]
        Zt, so, n = st
        c = Zt.tr(cond)
        for x in Zt.side[n:]: so.add(x)
        st[2] = len(Zt.side)
        so.push(); so.add(c)
        for v in cond.fv:
            if v.op == 'k': so.add(Zt.tr(v) >= max(0, rng(v)[0]))
        r = str(so.check()) == 'unsat'; so.pop()
        _stats['z3'] += 1; _stats['z3_time'] += time.time() - t0
        memo[cond] = r
        return r
    return solver

# ---------------------------------------------------------------- symbolic differentiation
def diff(t, seed, memo=None):
    """tangent of real term t; seed(atom) -> tangent term of an atom (or None for constants)"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None: r = memo[t] = _diff(t, seed, memo)
    return r
def _diff(t, seed, memo):
    op, a = t.op, t.a
    D = lambda x: diff(x, seed, memo)
    if op in ('dc', 'i2d', 'dinf', 'dnan', 'undef'): return D0
    if op in ('v', 'app'):
        r = seed(t); return D0 if r is None else r
    if op == 'dadd': return dadd(D(a[0]), D(a[1]))
    if op == 'dneg': return dneg(D(a[0]))
    if op == 'dmul': return dadd(dmul(D(a[0]), a[1]), dmul(a[0], D(a[1])))
    if op == 'ddiv': return ddiv(dsub(D(a[0]), dmul(t, D(a[1]))), a[1])
    if op == 'ite': return ite(a[0], D(a[1]), D(a[2]))
    if op == 'fn':
        n = a[0]
        if n in MATFNS:
            from . import mat
            return mat.mdiff(n, a[1:], t, D)
        x = a[1]; dx = D(x)
        if n == 'pow':
            dy = D(a[2])
            r = dmul(dmul(a[2], dfn('pow', x, dsub(a[2], D1))), dx) if dx is not D0 else D0
            if dy is not D0: r = dadd(r, dmul(dmul(t, dfn('log', x)), dy))
            return r
        if n == 'atan2':
            dy = D(a[2]); den = dadd(dmul(x, x), dmul(a[2], a[2]))
            return ddiv(dsub(dmul(a[2], dx), dmul(x, dy)), den)
        if dx is D0: return D0
        d = {'exp': lambda: t, 'log': lambda: ddiv(D1, x), 'sqrt': lambda: ddiv(D1, dmul(dc(2), t)), 'sin': lambda: dfn('cos', x), 'cos': lambda: dneg(dfn('sin', x)),
             'tan': lambda: dadd(D1, dmul(t, t)), 'acos': lambda: ddiv(dc(-1), dfn('sqrt', dsub(D1, dmul(x, x)))), 'asin': lambda: ddiv(D1, dfn('sqrt', dsub(D1, dmul(x, x)))),
             'atan': lambda: ddiv(D1, dadd(D1, dmul(x, x))), 'sinh': lambda: dfn('cosh', x), 'cosh': lambda: dfn('sinh', x), 'tanh': lambda: dsub(D1, dmul(t, t)),
             'abs': lambda: ite(dlt(x, D0), dc(-1), D1), 'log10': lambda: ddiv(D1, dmul(x, dc(Fraction(2.302585092994045684)))),
             'erf': lambda: dmul(dc(Fraction(1.1283791670955126)), dfn('exp', dneg(dmul(x, x)))), 'erfc': lambda: dmul(dc(Fraction(-1.1283791670955126)), dfn('exp', dneg(dmul(x, x)))),
             'floor': lambda: D0, 'ceil': lambda: D0}.get(n)
        if d is None: raise ValueError('derivative of ' + n)
        return dmul(d(), dx)
    if op == 'dsum': 
        k = bound_var(); return dsum(k, a[1], diff(subst(a[2], {a[0]: k}), seed, {}))
    raise ValueError('derivative of ' + op)

def num_z3(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return mpmath.mpf(v.numerator_as_long())/v.denominator_as_long()
    if z3.is_algebraic_value(v): return num_z3(v.approx(40))
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return None
def model_point(terms, facts, p, timeout=8000, spread=None):
    """pin the point p to a z3 model of the terms (small integers first); True when one was found"""
    ats = set(); bits = set(); seen = set(); st = list(terms)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('v', 'app', 'appr') and x.s == 'i' and not x.fv: ats.add(x)
        if x.op == 'bit' and not x.fv: bits.add(x)
        st.extend(TM.subterms(x))
    ba = {x.a[0] for x in bits} | {y.a[0] for y in seen if y.op in ('band', 'bor')}
    p.realdefs = set()
    tries = [6, None]
    if spread is not None:
        import random
        rg = random.Random(spread); sp = [le(ic(rg.randint(1, 2)), x) for x in sorted(ats - ba, key=lambda x: x.uid) if rg.random() < .6]
        tries = [('s', sp), ('s', sp[::2]), 6, None]
    for small in tries:
        if type(small) is tuple: extra = small[1] + [le(x, ic(6)) for x in ats if x not in ba]
        else: extra = [le(x, ic(small)) for x in ats if x not in ba and small] + [le(ic(-small), x) for x in ats if x not in ba and small]
        r, m, Zt = z3_check(list(terms) + extra, facts, timeout, want_model=True)
        if m is not None: break
    if m is None: return False
    names = {}
    for x in seen:
        if x.op in ('v', 'app', 'appr', 'k'): names[str(x.a[0])] = x.a[0]
    for (nm, n, so), f in Zt.fn.items():
        if type(nm) is not str or nm[:2] not in ('f:', 'v:') or nm[2:] not in names: continue
        key = names[nm[2:]]
        if n == 0:
            v = num_z3(m.eval(f, model_completion=True))
            if v is not None: p.pins[(key,)] = v
            continue
        it = m[f]
        if it is None: continue
        if not isinstance(it, z3.FuncInterp): continue
        l = it.as_list()
        for e in l[:-1]:
            ar = tuple(num_z3(a) for a in e[:-1]); v = num_z3(e[-1])
            if v is not None and None not in ar: p.pins[(key,) + ar] = v
        v = num_z3(l[-1])
        if v is not None:
            p.defs[key] = v
            if so == 'd': p.realdefs.add(key)
    for x in seen:
        if x.op == 'k':
            v = m.eval(Zt.tr(x)); v = num_z3(v)
            if v is not None: p.pins[(x.a[0],)] = v
    byarg = {}
    for b in bits:
        if z3.is_true(m.eval(Zt.tr(b), model_completion=True)): byarg[b.a[0]] = byarg.get(b.a[0], 0) | (1 << b.a[1])
        else: byarg.setdefault(b.a[0], 0)
    for x, v in byarg.items():
        if x.op in ('v', 'app', 'appr'): p.memo = {}; p.pins[(x.a[0],) + tuple(p.val(y) for y in x.a[1:] if type(y) is T)] = v
    p.memo = {}
    return True

# ---------------------------------------------------------------- random evaluation
class Point:
    """a random assignment to every atom; ints may be pinned"""
    def __init__(s, seed, pins=None, ranges=None, dps=40, real=None, mod=None):
        s.seed = seed; s.pins = pins or {}; s.ranges = ranges; s.memo = {}; s.real = real
        s.used = {}; s.defs = {}
        s.mod = mod
        mpmath.mp.dps = dps
    def h(s, *key):
        d = hashlib.blake2b(repr((s.seed,) + key).encode(), digest_size=16).digest()
        return int.from_bytes(d, 'little')
    def rint(s, key, lo, hi): return lo + s.h(*key) % (hi - lo + 1)
    def val(s, t, env=None):
        if env is None or not (t.fv and any(k in env for k in t.fv)):
            r = s.memo.get(t)
            if r is None: r = s.memo[t] = s._val(t, env)
            return r
        key = (t,) + tuple((k.uid, env[k]) for k in sorted(t.fv, key=lambda z: z.uid) if k in env)
        r = s.memo.get(key)
        if r is None: r = s.memo[key] = s._val(t, env)
        return r
    def atom(s, t, name, args):
        key = (name,) + tuple(args)
        if key in s.pins: return s.pins[key]
        if name in s.defs: return s.defs[name]
        r = s.used.get((key, t.s))
        if r is not None: return r
        r = None
        if s.ranges is not None: r = s.ranges(s, t, name, args)
        if r is None:
            if t.s == 'i':
                lo, hi = rng(t)
                lo, hi = max(lo, -3), min(hi, 4)
                if lo > hi: lo = hi = rng(t)[0]
                r = s.rint(key, lo, hi)
            elif t.s == 'b': r = bool(s.h(*key) & 1)
            elif t.s == 'd': r = s.rreal(key)
            else: raise ValueError('atom sort ' + t.s)
        s.used[(key, t.s)] = r
        return r
    def rreal(s, key, lo=Fraction(1, 16), hi=Fraction(15, 16)):
        u = Fraction(s.h(*key), 1 << 128)
        x = lo + (hi - lo)*u
        return mpmath.mpf(x.numerator)/x.denominator
    def _val(s, t, env):
        op, a = t.op, t.a; V = lambda x: s.val(x, env)
        if op == 'c': return a[0]
        if op == 'dc': return mpmath.mpf(a[0].numerator)/a[0].denominator
        if op == 'k': return env[t] if env is not None and t in env else s.atom(t, a[0], ())
        if op == 'v': return s.atom(t, a[0], ())
        if op == 'bv': return s.atom(t, a[0], ())
        if op in ('app', 'appr'): return s.atom(t, a[0], tuple(V(x) for x in a[1:] if type(x) is T))
        if op == 'lin':
            r = a[0]
            for x, k in a[1]: r += k*int(V(x))
            return r
        if op == 'mono':
            r = 1
            for x in a: r *= V(x)
            return r
        if op == 'mulx': return V(a[0])*V(a[1])
        if op == 'ite': return V(a[1]) if V(a[0]) else V(a[2])
        if op == 'le0': return V(a[0]) <= 0
        if op == 'eq0': return V(a[0]) == 0
        if op == 'not': return not V(a[0])
        if op == 'and': return all(V(x) for x in a)
        if op == 'or': return any(V(x) for x in a)
        if op == 'true': return True
        if op == 'false': return False
        if op == 'bit': return bool((V(a[0]) >> a[1]) & 1)
        if op == 'band': return V(a[0]) & V(a[1])
        if op == 'bor': return V(a[0]) | V(a[1])
        if op == 'bxor': return V(a[0]) ^ V(a[1])
        if op == 'zext': return V(a[0]) & ((1 << a[1])-1)
        if op == 'sext':
            v = V(a[0]) & ((1 << a[1])-1); return v - (1 << a[1]) if v >> (a[1]-1) else v
        if op == 'div':
            x, y = V(a[0]), V(a[1]); q = abs(x)//abs(y); return q if (x < 0) == (y < 0) else -q
        if op == 'rem':
            x, y = V(a[0]), V(a[1]); r = abs(x) % abs(y); return r if x >= 0 else -r
        if op == 'dadd': return V(a[0]) + V(a[1])
        if op == 'dneg': return -V(a[0])
        if op == 'dmul': return V(a[0])*V(a[1])
        if op == 'ddiv': return V(a[0])/V(a[1])
        if op == 'dlt': return V(a[0]) < V(a[1])
        if op == 'deq': return V(a[0]) == V(a[1])
        if op == 'i2d': return mpmath.mpf(int(V(a[0])))
        if op == 'd2i': return int(V(a[0]))
        if op == 'fn':
            xs = [V(x) for x in a[1:]]; n = a[0]
            if n in MATFNS:
                from . import mat
                return mat.ev(n, xs)
            if n == 'abs': return abs(xs[0])
            if n == 'pow': return mpmath.power(*xs)
            if n == 'fmod': return mpmath.fmod(*xs)
            r = getattr(mpmath, n)(*xs)
            return r
        if op == 'ex':
            k, hi, body = a
            return any(s.val(body, dict(env or {}, **{}) | {k: j}) for j in range(small(V(hi))))
        if op == 'dsum':
            k, hi, body = a; r = mpmath.mpf(0)
            for j in range(small(V(hi))): r += s.val(body, (env or {}) | {k: j})
            return r
        if op == 'dprod':
            k, hi, body = a; r = mpmath.mpf(1)
            for j in range(small(V(hi))): r *= s.val(body, (env or {}) | {k: j})
            return r
        if op == 'sum':
            k, hi, body = a
            return sum(s.val(body, (env or {}) | {k: j}) for j in range(small(V(hi))))
        if op == 'first':
            k, hi, body = a
            for j in range(small(V(hi))):
                if s.val(body, (env or {}) | {k: j}): return j
            return max(0, int(V(hi)))
        if op == 'undef': raise Undef()
        if op == 'null': return None
        if op == 'ptr': return (a[0].id,) + tuple(V(x) for x in a[1]) + (V(a[2]),)
        if op == 'peq': return V(a[0]) == V(a[1])
        if op == 'fnp': return a[0]
        raise ValueError('evaluate ' + op)
class Undef(Exception): pass

def small(n):
    n = int(n)
    if n > 3000: raise ValueError('range too large to evaluate')
    return n
def close(x, y, tol=mpmath.mpf(10)**-20):
    if isinstance(x, mpmath.matrix) or isinstance(y, mpmath.matrix):
        from . import mat
        return mat.mclose(x, y, tol)
    if x == y: return True
    try: d = abs(x - y)
    except TypeError: return False
    return d <= tol*max(1, abs(x), abs(y))

# ---------------------------------------------------------------- exact normal forms of rational expressions
class TooBig(Exception): pass
LIM = 4000
class RF:
    """quotient of polynomials with Fraction coefficients over atoms"""
    __slots__ = ('n', 'd')
    def __init__(s, n, d): s.n, s.d = n, d
def pmul(p, q):
    if len(p)*len(q) > LIM*30: raise TooBig()
    r = {}
    for m, c in p.items():
        for k, e in q.items():
            x = mmul(m, k); v = r.get(x, 0) + c*e
            if v: r[x] = v
            else: r.pop(x, None)
    if len(r) > LIM: raise TooBig()
    return r
def mmul(m, k):
    if not m: return k
    if not k: return m
    d = dict(m)
    for x, e in k:
        v = d.get(x, 0)+e
        if v: d[x] = v
        else: del d[x]
    return tuple(sorted(d.items(), key=lambda z: z[0].uid))
def padd_(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s*c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
ONEP = {(): Fraction(1)}
def nf(t, memo):
    r = memo.get(t)
    if r is None: r = memo[t] = _nf(t, memo)
    return r
def _nf(t, memo):
    op, a = t.op, t.a
    if op == 'dc': return RF({(): a[0]} if a[0] else {}, ONEP)
    if op == 'dadd':
        x, y = nf(a[0], memo), nf(a[1], memo)
        if x.d == y.d: return RF(padd_(x.n, y.n), x.d)
        return RF(padd_(pmul(x.n, y.d), pmul(y.n, x.d)), pmul(x.d, y.d))
    if op == 'dneg': x = nf(a[0], memo); return RF({m: -c for m, c in x.n.items()}, x.d)
    if op == 'dmul': x, y = nf(a[0], memo), nf(a[1], memo); return RF(pmul(x.n, y.n), pmul(x.d, y.d))
    if op == 'ddiv': x, y = nf(a[0], memo), nf(a[1], memo); return RF(pmul(x.n, y.d), pmul(x.d, y.n))
    if op == 'i2d':
        c, d = lin(a[0]); p = {}
        if c: p[()] = Fraction(c)
        for x, k in d.items(): 
            m = ()
            for y in (x.a if x.op == 'mono' else (x,)): m = mmul(m, ((y, 1),))
            p[m] = p.get(m, 0) + Fraction(k)
        return RF(p, ONEP)
    if op == 'fn' and a[0] in ('exp', 'sqrt'):
        key = canon_arg(a[1], memo)
        at = mk('fn', (a[0], key), 'd')
        if a[0] == 'sqrt': pass
        return RF({((at, 1),): Fraction(1)}, ONEP)
    if op == 'fn':
        sg = Fraction(1); ar = a[1:]
        if a[0] in EVEN or a[0] in ODD:
            try:
                if negative(nf(ar[0], memo).n):
                    ar = (dneg(ar[0]),)
                    if a[0] in ODD: sg = Fraction(-1)
            except TooBig: pass
        at = mk('fn', (a[0],) + tuple(canon_arg(x, memo) for x in ar), 'd')
        return RF({((at, 1),): sg}, ONEP)
    if op == 'dsum':
        k, hi, body = a
        x = nf(body, memo)
        # linear: split over monomials, factors without k come out (denominator must be free of k)
        dk = any(k in m[0].fv for mm in x.d for m in mm)
        num = {}
        items = []
        for m, c in x.n.items():
            out = tuple(z for z in m if k not in z[0].fv); inn = tuple(z for z in m if k in z[0].fv)
            items.append((out, inn, c))
        r = {}
        for out, inn, c in items:
            body_t = (inn, poly_key(x.d) if dk else None)
            at = mk('dsumnf', (k, hi) + (body_t_key(body_t),), 'd', fv=frozenset().union(*[z[0].fv for z in inn], hi.fv, *([z[0].fv for mm in x.d for z in mm] if dk else [])) - {k})
            m2 = mmul(out, ((at, 1),)); r[m2] = r.get(m2, 0) + c
        r = {m: c for m, c in r.items() if c}
        return RF(r, ONEP if dk else x.d)
    return RF({((t, 1),): Fraction(1)}, ONEP)
EVEN = {'cos', 'cosh', 'abs'}; ODD = {'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'erf'}
def negative(p):
    """sign of the first coefficient (a canonical choice between x and -x)"""
    return bool(p) and p[min(p, key=lambda m: tuple((x.uid, e) for x, e in m))] < 0
def poly_key(p): return tuple(sorted(((tuple((x.uid, e) for x, e in m), c) for m, c in p.items())))
def body_t_key(b): return (tuple((x, e) for x, e in b[0]), b[1])
def canon_arg(t, memo):
    try: x = nf(t, memo)
    except TooBig: return t
    return mk('rf', (tuple(sorted((tuple((y.uid, e) for y, e in m), c) for m, c in x.n.items())), tuple(sorted((tuple((y.uid, e) for y, e in m), c) for m, c in x.d.items()))), 'd', fv=t.fv)
def nf_zero(t):
    """exact: True when t is identically zero as a rational expression over its atoms"""
    x = nf(t, {})
    if not x.n: return True
    if any(y.op == 'fn' and y.a[0] in MATFNS for y in all_fns(t)):
        from . import mat
        return mat.nc_zero(t)
    return False
MATFNS = {'mm', 'mT', 'minv', 'E', 'sm', 'diag', 'dinvv', 'ones', 'lu', 'lul', 'piv', 'chol', 'symu', 'bad', 'dot', 'emul'}
def all_fns(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'fn': out.append(x)
        st.extend(subterms(x))
    return out
