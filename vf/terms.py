"""Hash-consed terms: ints ('i'), bools ('b'), reals ('d'), pointers ('p'), matrices ('m')."""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'a', 's', 'uid', 'fv', 'rng', '__weakref__')
    def __repr__(self): return pp(self)
    def __lt__(self, o): return self.uid < o.uid

_tab = {}
_n = [0]
E0 = frozenset()
def mk(op, a, s, fv=None):
    key = (op, a, s)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T); t.op = op; t.a = a; t.s = s; _n[0] += 1; t.uid = _n[0]; t.rng = None
        if fv is None:
            fv = E0
            for x in a:
                if type(x) is T:
                    if x.fv: fv = fv | x.fv
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is T:
                            if y.fv: fv = fv | y.fv
                        elif type(y) is tuple:
                            for z in y:
                                if type(z) is T and z.fv: fv = fv | z.fv
        t.fv = fv
        _tab[key] = t
    return t

# ------------------------------------------------------------ ints
INF = 1 << 62
_ic = {}
def ic(v):
    t = _ic.get(v)
    if t is None: t = _ic[v] = mk('c', (v,), 'i')
    return t
ZERO, ONE = ic(0), ic(1)
def ivar(name, lo=-(1 << 31), hi=(1 << 31) - 1):
    t = mk('v', (name,), 'i'); 
    if t.rng is None: t.rng = (lo, hi)
    return t
_bn = [0]
def bound_var(lo=0, hi=1 << 30):
    _bn[0] += 1
    t = mk('k', ('k%d' % _bn[0],), 'i'); t.fv = frozenset((t,)); t.rng = (lo, hi)
    return t
def canon_var(d):
    t = mk('k', ('$%d' % d,), 'i'); t.fv = frozenset((t,)); t.rng = (0, 1 << 30)
    return t

def is_c(t): return t.op == 'c'
def cv(t): return t.a[0]

def lin(t):
    """-> const, dict atom->coef"""
    if t.op == 'c': return t.a[0], {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}
def mklin(c, d):
    items = [(t, k) for t, k in d.items() if k]
    if not items: return ic(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda x: x[0].uid)
    return mk('lin', (c, tuple(items)), 'i')
def add(a, b):
    if a.op == 'c' and b.op == 'c': return ic(a.a[0] + b.a[0])
    if a is ZERO: return b
    if b is ZERO: return a
    c1, d1 = lin(a); c2, d2 = lin(b)
    if len(d1) < len(d2): c1, d1, c2, d2 = c2, d2, c1, d1
    d1 = dict(d1)
    for t, k in d2.items(): d1[t] = d1.get(t, 0) + k
    return mklin(c1 + c2, d1)
def scale(k, a):
    if k == 0: return ZERO
    if k == 1: return a
    c, d = lin(a)
    return mklin(c*k, {t: v*k for t, v in d.items()})
def neg(a): return scale(-1, a)
def sub(a, b): return add(a, scale(-1, b))
def mul(a, b):
    if a.op == 'c': return scale(a.a[0], b)
    if b.op == 'c': return scale(b.a[0], a)
    c1, d1 = lin(a); c2, d2 = lin(b)
    if len(d1)*len(d2) > 64:
        return mk('mulx', tuple(sorted((a, b))), 'i')
    r = {}; c = c1*c2
    for t, k in d1.items(): r[t] = r.get(t, 0) + k*c2
    for t, k in d2.items(): r[t] = r.get(t, 0) + k*c1
    for t, k in d1.items():
        for u, l in d2.items():
            x = (t.a if t.op == 'mono' else (t,)) + (u.a if u.op == 'mono' else (u,))
            m = mk('mono', tuple(sorted(x)), 'i'); r[m] = r.get(m, 0) + k*l
    return mklin(c, r)

def rng(t):
    """interval [lo, hi] of an int term"""
    if t.rng is not None: return t.rng
    op = t.op
    if op == 'c': r = (t.a[0], t.a[0])
    elif op == 'lin':
        lo = hi = t.a[0]
        for x, k in t.a[1]:
            l, h = rng(x)
            if k > 0: lo += k*l; hi += k*h
            else: lo += k*h; hi += k*l
        r = (lo, hi)
    elif op == 'ite':
        l1, h1 = rng(t.a[1]); l2, h2 = rng(t.a[2]); r = (min(l1, l2), max(h1, h2))
    elif op == 'first': r = (0, 1 << 31)
    elif op == 'mono':
        lo = hi = 1
        for x in t.a:
            l, h = rng(x); c = (lo*l, lo*h, hi*l, hi*h); lo, hi = min(c), max(c)
        r = (lo, hi)
    elif op == 'band':
        r = (-INF, INF)
        for x in t.a:
            l, h = rng(x)
            if l >= 0: r = (0, min(r[1], h))
    elif op in ('div',) and t.a[1].op == 'c' and t.a[1].a[0] > 0:
        l, h = rng(t.a[0]); d = t.a[1].a[0]; q = lambda v: v//d if v >= 0 else -((-v)//d); r = (q(l), q(h))
    elif op == 'rem' and t.a[1].op == 'c':
        d = abs(t.a[1].a[0]); l, h = rng(t.a[0]); r = (0 if l >= 0 else -(d-1), d-1 if h > 0 else 0)
    elif op in ('bor', 'bxor'):
        (l1, h1), (l2, h2) = rng(t.a[0]), rng(t.a[1])
        r = (0 if op == 'bxor' else max(l1, l2), (1 << max(h1, h2).bit_length()) - 1) if l1 >= 0 and l2 >= 0 else (-INF, INF)
    elif op == 'appr': r = t.a[-1]
    elif op == 'zext': r = (0, (1 << t.a[1])-1)
    elif op == 'sext': r = (-(1 << (t.a[1]-1)), (1 << (t.a[1]-1))-1)
    else: r = (-INF, INF)
    r = (max(r[0], -INF), min(r[1], INF))
    t.rng = r
    return r

# ------------------------------------------------------------ bools
TRUE = mk('true', (), 'b'); FALSE = mk('false', (), 'b')
def bvar(name): return mk('bv', (name,), 'b')
def bconst(x): return TRUE if x else FALSE
_BIG = 1 << 61
def le0(t):
    if t.op == 'c': return bconst(t.a[0] <= 0)
    lo, hi = rng(t)
    if hi <= 0: return TRUE
    if lo > 0: return FALSE
    c, d = lin(t)
    if len(d) == 1:
        (x, k), = d.items()
        if x.op == 'ite' and _smallite(x):
            return ite_b(x.a[0], le0(add(ic(c), scale(k, x.a[1]))), le0(add(ic(c), scale(k, x.a[2]))))
    g = 0
    for k in d.values(): g = _gcd(g, k)
    if g > 1:
        # sum g*x_i + c <= 0  <=> sum x_i <= floor(-c/g)
        t = mklin(-((-c)//g), {x: k//g for x, k in d.items()})
        if t.op == 'c': return bconst(t.a[0] <= 0)
    # canonical polarity: leading coefficient positive
    c, d = lin(t)
    lead = min(d, key=lambda x: x.uid)
    if d[lead] < 0:
        return mk('not', (mk('le0', (sub(ONE, t),), 'b'),), 'b')
    return mk('le0', (t,), 'b')
def _gcd(a, b):
    a, b = abs(a), abs(b)
    while b: a, b = b, a % b
    return a
def _smallite(x, depth=12):
    return x.a[1].op in ('c',) or x.a[2].op in ('c',) or depth <= 0 or (x.a[1].op == 'ite' or x.a[2].op == 'ite')
def eq0(t):
    if t.op == 'c': return bconst(t.a[0] == 0)
    lo, hi = rng(t)
    if lo > 0 or hi < 0: return FALSE
    if lo == 0 and hi == 0: return TRUE
    c, d = lin(t)
    if len(d) == 1:
        (x, k), = d.items()
        if c % k: return FALSE
        v = -c//k
        if x.op == 'ite':
            if x.a[1].op == 'c' or x.a[2].op == 'c' or _smallite(x):
                return ite_b(x.a[0], eq0(sub(x.a[1], ic(v))), eq0(sub(x.a[2], ic(v))))
        if x.op == 'band':
            m, y = None, None
            for p, q in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                if p.op == 'c': m, y = p.a[0], q
            if m is not None:
                if v & ~m: return FALSE
                r = TRUE
                for b in range(64):
                    if (m >> b) & 1:
                        bt = bit(y, b)
                        r = and_(r, bt if (v >> b) & 1 else not_(bt))
                        if b >= 31 and m < 0: break
                return r
            if v == 0:
                r = TRUE
                for b in range(32): r = and_(r, not_(and_(bit(x.a[0], b), bit(x.a[1], b))))
                return r
        if x.op == 'bor' and v == 0: return and_(eq0(x.a[0]), eq0(x.a[1]))
        if x.op in ('bor', 'bxor'):
            r = TRUE
            for b in range(32):
                bt = bit(x, b); r = and_(r, bt if (v >> b) & 1 else not_(bt))
            return r
    g = 0
    for k in d.values(): g = _gcd(g, k)
    if c % g: return FALSE
    lead = min(d, key=lambda x: x.uid)
    if d[lead] < 0: g = -g
    if g != 1: t = mklin(c//g, {x: k//g for x, k in d.items()})
    return mk('eq0', (t,), 'b')
def eq(a, b):
    if a is b: return TRUE
    return eq0(sub(a, b))
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), ONE))

def bit(t, k):
    op = t.op
    if op == 'c': return bconst((t.a[0] >> k) & 1)
    if op == 'band': return and_(bit(t.a[0], k), bit(t.a[1], k))
    if op == 'bor': return or_(bit(t.a[0], k), bit(t.a[1], k))
    if op == 'bxor':
        x, y = bit(t.a[0], k), bit(t.a[1], k); return or_(and_(x, not_(y)), and_(not_(x), y))
    if op == 'ite': return ite_b(t.a[0], bit(t.a[1], k), bit(t.a[2], k))
    if op == 'zext': return bit(t.a[0], k) if k < t.a[1] else FALSE
    if op == 'sext': return bit(t.a[0], min(k, t.a[1]-1))
    l, h = rng(t)
    if l >= 0 and h < (1 << k): return FALSE
    return mk('bit', (t, k), 'b')

def not_(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == 'not': return x.a[0]
    return mk('not', (x,), 'b')
def conj(x): return x.a if x.op == 'and' else ((x,) if x is not TRUE else ())
def disj(x): return x.a if x.op == 'or' else ((x,) if x is not FALSE else ())
_andc = {}
def and_(x, y):
    if x is y or y is TRUE: return x
    if x is TRUE: return y
    if x is FALSE or y is FALSE: return FALSE
    key = (x.uid, y.uid) if x.uid < y.uid else (y.uid, x.uid)
    r = _andc.get(key)
    if r is not None: return r
    s = set(conj(x)); 
    for l in conj(y):
        s.add(l)
    r = _mkand(s)
    _andc[key] = r
    return r
def _mkand(s):
    for l in s:
        if l.op == 'not' and l.a[0] in s: return FALSE
    # unit simplification of disjunctions
    ch = True
    while ch:
        ch = False
        for l in list(s):
            if l.op == 'or':
                keep = []; sat = False
                for z in l.a:
                    if z in s: sat = True; break
                    nz = z.a[0] if z.op == 'not' else None
                    if (nz is not None and nz in s) or (nz is None and _hasneg(s, z)): continue
                    if z.op == 'and' and any(_falsein(s, w) for w in z.a): continue
                    keep.append(z)
                if sat: s.discard(l); ch = True
                elif len(keep) < len(l.a):
                    s.discard(l); ch = True
                    r = FALSE
                    for z in keep: r = or_(r, z)
                    if r is FALSE: return FALSE
                    for z in conj(r): s.add(z)
    for l in s:
        if l.op == 'not' and l.a[0] in s: return FALSE
    # bounds on the same linear part
    ub = {}; drop = None
    for l in s:
        b = _bound(l)
        if b is None: continue
        key, hi, isup = b
        o = ub.get((key, isup))
        if o is None: ub[(key, isup)] = (hi, l)
        else:
            if drop is None: drop = set()
            if (isup and hi < o[0]) or (not isup and hi > o[0]): drop.add(o[1]); ub[(key, isup)] = (hi, l)
            else: drop.add(l)
    for (key, isup), (v, l) in ub.items():
        if isup:
            o = ub.get((key, False))
            if o is not None and o[0] > v: return FALSE
    eqs = None
    for l in s:
        if l.op == 'eq0':
            c, d = lin(l.a[0]); key = mklin(0, d)
            if eqs is None: eqs = {}
            if eqs.setdefault(key, -c) != -c: return FALSE
    if eqs:
        for key, v in eqs.items():
            u = ub.get((key, True))
            if u is not None:
                if u[0] < v: return FALSE
                if drop is None: drop = set()
                drop.add(u[1])
            u = ub.get((key, False))
            if u is not None:
                if u[0] > v: return FALSE
                if drop is None: drop = set()
                drop.add(u[1])
        for l in s:
            if l.op == 'not' and l.a[0].op == 'eq0':
                c, d = lin(l.a[0].a[0]); v = eqs.get(mklin(0, d))
                if v is not None:
                    if v == -c: return FALSE
                    if drop is None: drop = set()
                    drop.add(l)
    if drop: s -= drop
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk('and', tuple(sorted(s, key=lambda t: t.uid)), 'b')
def _hasneg(s, z):
    t = _tab.get(('not', (z,), 'b'))
    return t is not None and t in s
def _falsein(s, w):
    if w.op == 'not': return w.a[0] in s
    return _hasneg(s, w)
def _bound(l):
    """le0 literals as bounds on a canonical linear part: (key, value, isupper)"""
    if l.op == 'le0':
        t = l.a[0]; c, d = lin(t)
        return (mklin(0, d), -c, True)
    if l.op == 'not' and l.a[0].op == 'le0':
        t = l.a[0].a[0]; c, d = lin(t)
        return (mklin(0, d), -c + 1, False)
    return None
_orc = {}
def or_(x, y):
    if x is y or y is FALSE: return x
    if x is FALSE: return y
    if x is TRUE or y is TRUE: return TRUE
    key = (x.uid, y.uid) if x.uid < y.uid else (y.uid, x.uid)
    r = _orc.get(key)
    if r is not None: return r
    r = _or(x, y); _orc[key] = r
    return r
def _or(x, y):
    cx, cy = set(conj(x)), set(conj(y))
    if cx <= cy: return x
    if cy <= cx: return y
    common = cx & cy
    if common:
        rx, ry = cx - common, cy - common
        inner = or_(_mkand(rx) if rx else TRUE, _mkand(ry) if ry else TRUE)
        r = inner
        for c in common: r = and_(r, c)
        return r
    # (a & rest) | !a  => rest | !a
    if len(cx) == 1 and len(cy) > 1:
        n = not_(x)
        if n in cy: return or_(x, _mkand(cy - {n}))
    if len(cy) == 1 and len(cx) > 1:
        n = not_(y)
        if n in cx: return or_(y, _mkand(cx - {n}))
    s = set(disj(x)) | set(disj(y))
    for l in s:
        if l.op == 'not' and l.a[0] in s: return TRUE
    # absorb
    if len(s) <= 40:
        sl = list(s)
        for l in sl:
            if l.op == 'and' and any(z in s for z in l.a): s.discard(l)
        # bounds: (t<=a) | (t<=b); (t<=a)|(t>=b), b<=a+1 -> true
        ub = {}
        for l in list(s):
            b = _bound(l)
            if b is None: continue
            key, v, up = b
            o = ub.get((key, up))
            if o is None: ub[(key, up)] = (v, l)
            elif (up and v > o[0]) or (not up and v < o[0]): s.discard(o[1]); ub[(key, up)] = (v, l)
            else: s.discard(l)
        for (key, up), (v, l) in ub.items():
            if up:
                o = ub.get((key, False))
                if o is not None and o[0] <= v + 1: return TRUE
        # pairwise complementary: (A & c) | (A & !c) -> A
        ands = [l for l in s if l.op == 'and']
        for l in ands:
            if l not in s: continue
            sl_ = set(l.a)
            for m in list(s):
                if m is l: continue
                if m.op == 'and' and len(m.a) == len(l.a):
                    dl = sl_ - set(m.a)
                    if len(dl) == 1:
                        dm = set(m.a) - sl_
                        z, = dl; w, = dm
                        if not_(z) is w:
                            s.discard(l); s.discard(m)
                            r = _mkand(sl_ - {z})
                            for q in s: r = or_(r, q)
                            return r
                elif m.op != 'and' and not_(m) in sl_:
                    s.discard(l)
                    r = _mkand(sl_ - {not_(m)})
                    for q in s: r = or_(r, q)
                    return r
    if len(s) == 1: return next(iter(s))
    return mk('or', tuple(sorted(s, key=lambda t: t.uid)), 'b')
def andl(xs):
    r = TRUE
    for x in xs: r = and_(r, x)
    return r
def orl(xs):
    r = FALSE
    for x in xs: r = or_(r, x)
    return r
def implies(a, b): return or_(not_(a), b)
def ite_b(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE: return or_(c, b)
    if a is FALSE: return and_(not_(c), b)
    if b is TRUE: return or_(not_(c), a)
    if b is FALSE: return and_(c, a)
    return or_(and_(c, a), and_(not_(c), b))

def iff(a, b):
    if a is b: return TRUE
    return or_(and_(a, b), and_(not_(a), not_(b)))

# ------------------------------------------------------------ ite on any sort
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.s == 'b': return ite_b(c, a, b)
    if c.op == 'not': c, a, b = c.a[0], b, a
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if b.op == 'ite' and b.a[1] is a: return ite(or_(c, b.a[0]), a, b.a[2])
    if a.op == 'ite' and a.a[2] is b: return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]):
        return mk('ptr', (a.a[0], tuple(ite(c, x, y) for x, y in zip(a.a[1], b.a[1])), ite(c, a.a[2], b.a[2])), 'p')
    return mk('ite', (c, a, b), a.s)

UNDEF = {s: mk('undef', (s,), s) for s in 'ibdpm'}

def under(t, g, _memo=None, depth=0):
    """simplify bool t under the conjunction g"""
    if t is TRUE or t is FALSE or g is TRUE: return t
    gs = conj(g)
    if t.op == 'and':
        r = TRUE
        for l in t.a: r = and_(r, under(l, g))
        return r
    if t.op == 'or':
        r = FALSE
        for l in t.a: r = or_(r, under(l, g))
        return r
    return _lit_under(t, g)
_luc = {}
def _lit_under(t, g):
    k = (t.uid, g.uid)
    r = _luc.get(k)
    if r is not None: return r
    gs = gset(g)
    n = not_(t)
    if t in gs: r = TRUE
    elif n in gs: r = FALSE
    else:
        r = t
        b = _bound(t)
        if b is not None:
            key, v, up = b
            u = gbounds(g).get(key)
            if u is not None:
                lo, hi = u
                if up:
                    if hi is not None and hi <= v: r = TRUE
                    elif lo is not None and lo > v: r = FALSE
                else:
                    if lo is not None and lo >= v: r = TRUE
                    elif hi is not None and hi < v: r = FALSE
        elif t.op == 'eq0' or (t.op == 'not' and t.a[0].op == 'eq0'):
            e = t if t.op == 'eq0' else t.a[0]
            c, d = lin(e.a[0]); u = gbounds(g).get(mklin(0, d))
            if u is not None:
                lo, hi = u
                if (lo is not None and lo > -c) or (hi is not None and hi < -c): r = FALSE if t is e else TRUE
            # equality to another constant
            for l in gs:
                if l.op == 'eq0' and l is not e:
                    c2, d2 = lin(l.a[0])
                    if d2 == d and c2 != c: r = FALSE if t is e else TRUE
    _luc[k] = r
    return r
_gs = {}
def gset(g):
    r = _gs.get(g)
    if r is None: r = _gs[g] = frozenset(conj(g))
    return r
_gb = {}
def gbounds(g):
    r = _gb.get(g)
    if r is None:
        r = {}
        for l in conj(g):
            b = _bound(l)
            if b is not None:
                key, v, up = b; lo, hi = r.get(key, (None, None))
                if up: hi = v if hi is None else min(hi, v)
                else: lo = v if lo is None else max(lo, v)
                r[key] = (lo, hi)
            elif l.op == 'eq0':
                c, d = lin(l.a[0]); r[mklin(0, d)] = (-c, -c)
        _gb[g] = r
    return r
def ite_under(t, g):
    """strip ite layers decided by g"""
    while t.op == 'ite':
        c = under(t.a[0], g)
        if c is TRUE: t = t.a[1]
        elif c is FALSE: t = t.a[2]
        else: break
    return t

# ------------------------------------------------------------ bit operations
def _pow2(v): return v > 0 and v & (v-1) == 0
def band(a, b):
    if a.op == 'c' and b.op == 'c': return ic(a.a[0] & b.a[0])
    if a.uid > b.uid: a, b = b, a
    for x, y in ((a, b), (b, a)):
        if x.op == 'c':
            if x.a[0] == 0: return ZERO
            if x.a[0] == -1: return y
            if y.op == 'band':
                for p, q in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
                    if p.op == 'c': return band(ic(p.a[0] & x.a[0]), q)
            if y.op == 'ite' and (y.a[1].op == 'c' or y.a[2].op == 'c'): return ite(y.a[0], band(x, y.a[1]), band(x, y.a[2]))
            l, h = rng(y)
            if l >= 0 and _pow2(x.a[0]+1) and h <= x.a[0]: return y
    if a is b: return a
    return mk('band', (a, b), 'i')
def bor(a, b):
    if a.op == 'c' and b.op == 'c': return ic(a.a[0] | b.a[0])
    if a is ZERO: return b
    if b is ZERO: return a
    if a is b: return a
    if a.uid > b.uid: a, b = b, a
    return mk('bor', (a, b), 'i')
def bxor(a, b):
    if a.op == 'c' and b.op == 'c': return ic(a.a[0] ^ b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'c':
            if y.op == 'ite' and (y.a[1].op == 'c' or y.a[2].op == 'c'): return ite(y.a[0], bxor(x, y.a[1]), bxor(x, y.a[2]))
            if x.a[0] == -1: return add(neg(y), ic(-1))
    if a is ZERO: return b
    if b is ZERO: return a
    if a.uid > b.uid: a, b = b, a
    return mk('bxor', (a, b), 'i')
def tdiv(a, b):
    if b.op == 'c' and b.a[0] != 0:
        if a.op == 'c':
            q = abs(a.a[0])//abs(b.a[0]); return ic(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
        if b.a[0] == 1: return a
        c, d = lin(a); k = b.a[0]
        if c % k == 0 and all(v % k == 0 for v in d.values()): return mklin(c//k, {t: v//k for t, v in d.items()})
    return mk('div', (a, b), 'i')
def trem(a, b):
    if b.op == 'c' and b.a[0] != 0:
        if a.op == 'c':
            r = abs(a.a[0]) % abs(b.a[0]); return ic(r if a.a[0] >= 0 else -r)
        if abs(b.a[0]) == 1: return ZERO
        c, d = lin(a); k = b.a[0]
        if c % k == 0 and all(v % k == 0 for v in d.values()): return ZERO
    return mk('rem', (a, b), 'i')
def app(name, args, s='i', r=None):
    if s == 'i' and r is not None: return mk('appr', (name,) + tuple(args) + (r,), 'i')
    return mk('app', (name,) + tuple(args), s)

# ------------------------------------------------------------ reals
_dc = {}
def dc(v):
    if not isinstance(v, Fraction):
        if v != v: return mk('dnan', (), 'd')
        if v in (float('inf'), float('-inf')): return mk('dinf', (1 if v > 0 else -1,), 'd')
        v = Fraction(v)
    t = _dc.get(v)
    if t is None: t = _dc[v] = mk('dc', (v,), 'd')
    return t
D0, D1 = dc(Fraction(0)), dc(Fraction(1))
def dvar(name): return mk('v', (name,), 'd')
def dadd(a, b):
    if a.op == 'dc':
        if b.op == 'dc': return dc(a.a[0] + b.a[0])
        if a is D0: return b
    if b is D0: return a
    if a.op == 'dneg' and a.a[0] is b: return D0
    if b.op == 'dneg' and b.a[0] is a: return D0
    if a.uid > b.uid: a, b = b, a
    return mk('dadd', (a, b), 'd')
def dneg(a):
    if a.op == 'dc': return dc(-a.a[0])
    if a.op == 'dneg': return a.a[0]
    return mk('dneg', (a,), 'd')
def dsub(a, b):
    if a is b: return D0
    return dadd(a, dneg(b))
def dmul(a, b):
    if a.op == 'dc' and b.op == 'dc': return dc(a.a[0]*b.a[0])
    for x, y in ((a, b), (b, a)):
        if x is D0: return D0
        if x is D1: return y
        if x.op == 'dc' and x.a[0] == -1: return dneg(y)
    if a.op == 'dneg': return dneg(dmul(a.a[0], b))
    if b.op == 'dneg': return dneg(dmul(a, b.a[0]))
    if a.uid > b.uid: a, b = b, a
    return mk('dmul', (a, b), 'd')
def ddiv(a, b):
    if b.op == 'dc' and b.a[0] != 0:
        if a.op == 'dc': return dc(a.a[0]/b.a[0])
        if b is D1: return a
    if a is D0: return D0
    if a.op == 'dneg': return dneg(ddiv(a.a[0], b))
    return mk('ddiv', (a, b), 'd')
def dfn(name, *args):
    if name in ('sin', 'cos') and args[0].op == 'fn' and args[0].a[0] == 'acos':        # acos is defined on [-1, 1] with values in [0, pi]
        x = args[0].a[1]; return x if name == 'cos' else dfn('sqrt', dsub(D1, dmul(x, x)))
    return mk('fn', (name,) + args, 'd')
def i2d(t):
    if t.op == 'c': return dc(Fraction(t.a[0]))
    if t.op == 'ite': return ite(t.a[0], i2d(t.a[1]), i2d(t.a[2]))
    return mk('i2d', (t,), 'd')
def d2i(t):
    if t.op == 'dc':
        v = t.a[0]; return ic(int(v))
    if t.op == 'i2d': return t.a[0]
    return mk('d2i', (t,), 'i')
def dlt(a, b):
    if a is b: return FALSE
    if a.op == 'dc' and b.op == 'dc': return bconst(a.a[0] < b.a[0])
    if a.op == 'ite' and b.op == 'dc' : return ite_b(a.a[0], dlt(a.a[1], b), dlt(a.a[2], b))
    if b.op == 'ite' and a.op == 'dc' : return ite_b(b.a[0], dlt(a, b.a[1]), dlt(a, b.a[2]))
    if a.op == 'i2d' and b.op == 'i2d': return lt(a.a[0], b.a[0])
    if a.op == 'i2d' and b.op == 'dc':
        import math
        return lt(a.a[0], ic(math.ceil(b.a[0])))
    if b.op == 'i2d' and a.op == 'dc':
        import math
        return lt(ic(math.floor(a.a[0])), b.a[0])
    return mk('dlt', (a, b), 'b')
def deq(a, b):
    if a is b: return TRUE
    if a.op == 'dc' and b.op == 'dc': return bconst(a.a[0] == b.a[0])
    if a.op == 'ite' and b.op == 'dc' : return ite_b(a.a[0], deq(a.a[1], b), deq(a.a[2], b))
    if b.op == 'ite' and a.op == 'dc' : return ite_b(b.a[0], deq(a, b.a[1]), deq(a, b.a[2]))
    if a.op == 'i2d' and b.op == 'dc':
        return eq(a.a[0], ic(int(b.a[0]))) if b.a[0].denominator == 1 else FALSE
    if b.op == 'i2d' and a.op == 'dc': return deq(b, a)
    if a.uid > b.uid: a, b = b, a
    return mk('deq', (a, b), 'b')

# ------------------------------------------------------------ binders
def _depth(t, memo):
    r = memo.get(t)
    if r is not None: return r
    r = 0
    if t.op in ('sum', 'dsum', 'dprod', 'ex', 'argk', 'fold'):
        r = int(t.a[0].a[0][1:])
    for x in subterms(t):
        d = _depth(x, memo)
        if d > r: r = d
    memo[t] = r
    return r
def subterms(t):
    for x in t.a:
        if type(x) is T: yield x
        elif type(x) is tuple:
            for y in x:
                if type(y) is T: yield y
                elif type(y) is tuple:
                    for z in y:
                        if type(z) is T: yield z
def _bind(op, k, hi, body, s, extra=()):
    d = 1 + _depth(body, {})
    v = canon_var(d)
    body2 = subst(body, {k: v})
    extra2 = tuple(subst(x, {k: v}) for x in extra)
    fv = (body2.fv - {v}) | hi.fv
    for x in extra2: fv = fv | (x.fv - {v})
    return mk(op, (v, hi, body2) + extra2, s, fv)
def exists(k, hi, body):
    """exists 0 <= k < hi . body"""
    body = under(body, and_(le0(neg(k)), lt(k, hi)))
    if body is FALSE: return FALSE
    if body is TRUE: return le0(sub(ONE, hi))
    if k not in body.fv: return and_(body, le0(sub(ONE, hi)))
    if body.op == 'or':
        r = FALSE
        for x in body.a: r = or_(r, exists(k, hi, x))
        return r
    if body.op == 'and':
        out = [x for x in body.a if k not in x.fv]; inn = [x for x in body.a if k in x.fv]
        r = andl(out)
        if out: return and_(r, exists(k, hi, andl(inn)))
        # equality elimination
        for x in inn:
            v = solve_eq(x, k)
            if v is not None:
                rest = andl([subst(y, {k: v}) for y in inn if y is not x])
                return andl([rest, le0(neg(v)), lt(v, hi)])
    else:
        v = solve_eq(body, k)
        if v is not None: return and_(le0(neg(v)), lt(v, hi))
    if hi.op == 'c' and hi.a[0] <= 64:
        return orl(subst(body, {k: ic(j)}) for j in range(max(0, hi.a[0])))
    return _bind('ex', k, hi, body, 'b')
def solve_eq(l, k):
    if l.op == 'eq0':
        c, d = lin(l.a[0]); q = d.get(k)
        if q in (1, -1):
            d = dict(d); del d[k]; r = mklin(c, d)
            if k in r.fv: return None
            return scale(-q, r)
    return None
def forall(k, hi, body): return not_(exists(k, hi, not_(body)))
def dsum(k, hi, body):
    if body is D0: return D0
    if hi.op == 'c' and hi.a[0] <= 64:
        r = D0
        for j in range(max(0, hi.a[0])): r = dadd(r, subst(body, {k: ic(j)}))
        return r
    if body.op == 'dneg': return dneg(dsum(k, hi, body.a[0]))
    return _bind('dsum', k, hi, body, 'd')
def isum(k, hi, body):
    if body is ZERO: return ZERO
    if hi.op == 'c' and hi.a[0] <= 64:
        r = ZERO
        for j in range(max(0, hi.a[0])): r = add(r, subst(body, {k: ic(j)}))
        return r
    if k not in body.fv: return mul(body, ite(le0(neg(hi)), hi, ZERO))
    return _bind('sum', k, hi, body, 'i')

# ------------------------------------------------------------ substitution / rebuild
_fvs = {}
def subst(t, m, memo=None):
    """replace bound variables (keys with fv) or any atoms"""
    if memo is None:
        memo = {}
    keys = m.keys()
    bound_only = all(k.op == 'k' for k in keys)
    ks = frozenset(keys)
    return _subst(t, m, memo, bound_only, ks)
def _subst(t, m, memo, bo, ks):
    if bo and not (t.fv & ks): return t
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    f = lambda x: _subst(x, m, memo, bo, ks)
    r = rebuild(t, f)
    memo[t] = r
    return r
def rebuild(t, f):
    op, a = t.op, t.a
    if op in ('c', 'v', 'k', 'true', 'false', 'bv', 'dc', 'undef', 'null', 'fnp', 'dnan', 'dinf'): return t
    if op == 'lin':
        r = ic(a[0])
        for x, k in a[1]: r = add(r, scale(k, f(x)))
        return r
    if op == 'mono':
        r = ONE
        for x in a: r = mul(r, f(x))
        return r
    if op == 'mulx': return mul(f(a[0]), f(a[1]))
    if op == 'ite': return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'band': return band(f(a[0]), f(a[1]))
    if op == 'bor': return bor(f(a[0]), f(a[1]))
    if op == 'bxor': return bxor(f(a[0]), f(a[1]))
    if op == 'div': return tdiv(f(a[0]), f(a[1]))
    if op == 'rem': return trem(f(a[0]), f(a[1]))
    if op == 'le0': return le0(f(a[0]))
    if op == 'eq0': return eq0(f(a[0]))
    if op == 'bit': return bit(f(a[0]), a[1])
    if op == 'not': return not_(f(a[0]))
    if op == 'and':
        r = TRUE
        for x in a: r = and_(r, f(x))
        return r
    if op == 'or':
        r = FALSE
        for x in a: r = or_(r, f(x))
        return r
    if op == 'dadd': return dadd(f(a[0]), f(a[1]))
    if op == 'dneg': return dneg(f(a[0]))
    if op == 'dmul': return dmul(f(a[0]), f(a[1]))
    if op == 'ddiv': return ddiv(f(a[0]), f(a[1]))
    if op == 'dlt': return dlt(f(a[0]), f(a[1]))
    if op == 'deq': return deq(f(a[0]), f(a[1]))
    if op == 'i2d': return i2d(f(a[0]))
    if op == 'd2i': return d2i(f(a[0]))
    if op == 'fn': return dfn(a[0], *[f(x) for x in a[1:]])
    if op == 'app': return app(a[0], [f(x) if type(x) is T else x for x in a[1:]], t.s)
    if op == 'appr': return app(a[0], [f(x) if type(x) is T else x for x in a[1:-1]], 'i', a[-1])
    if op == 'zext': return zext(f(a[0]), a[1])
    if op == 'sext': return sext(f(a[0]), a[1])
    if op == 'ptr': return mk('ptr', (a[0], tuple(f(x) for x in a[1]), f(a[2])), 'p')
    if op == 'peq': return peq(f(a[0]), f(a[1]))
    if op == 'ex': return exists(*_unbind(a, f))
    if op == 'dsum': return dsum(*_unbind(a, f))
    if op == 'sum': return isum(*_unbind(a, f))
    if op == 'fold':
        k = bound_var(); acc = mk('k', ('acc%d' % k.uid,), a[3].s); acc.fv = frozenset((acc,))
        raise NotImplementedError('fold')
    h = _rebuild_ext.get(op)
    if h: return h(t, f)
    return mk(op, tuple(f(x) if type(x) is T else x for x in a), t.s)
_rebuild_ext = {}
def _unbind(a, f):
    k = bound_var()
    return k, f(a[1]), f(subst(a[2], {a[0]: k}))

def zext(t, w):
    """interpret the low w bits as unsigned"""
    l, h = rng(t)
    if l >= 0 and h < (1 << w): return t
    if t.op == 'c': return ic(t.a[0] & ((1 << w)-1))
    if t.op == 'ite': return ite(t.a[0], zext(t.a[1], w), zext(t.a[2], w))
    if t.op in ('zext', 'sext') and t.a[1] >= w: return zext(t.a[0], w)
    return mk('zext', (t, w), 'i')
def sext(t, w):
    l, h = rng(t)
    if l >= -(1 << (w-1)) and h < (1 << (w-1)): return t
    if t.op == 'c':
        v = t.a[0] & ((1 << w)-1); return ic(v - (1 << w) if v >> (w-1) else v)
    if t.op == 'ite': return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op in ('zext', 'sext') and t.a[1] >= w: return sext(t.a[0], w)
    return mk('sext', (t, w), 'i')

# ------------------------------------------------------------ pointers
NULL = mk('null', (), 'p')
def ptr(fam, path=(), off=ZERO): return mk('ptr', (fam, tuple(path), off), 'p')
def fnp(name): return mk('fnp', (name,), 'p')
def peq(p, q):
    if p is q: return TRUE
    if p.op == 'ite': return ite_b(p.a[0], peq(p.a[1], q), peq(p.a[2], q))
    if q.op == 'ite': return ite_b(q.a[0], peq(p, q.a[1]), peq(p, q.a[2]))
    if p.op == 'null' and q.op == 'ptr': p, q = q, p
    if p.op == 'ptr' and q.op == 'null':
        return p.a[0].isnull(p.a[1])
    if p.op == 'ptr' and q.op == 'ptr':
        if p.a[0] is q.a[0]:
            if len(p.a[1]) == len(q.a[1]):
                return andl([eq(x, y) for x, y in zip(p.a[1], q.a[1])] + [eq(p.a[2], q.a[2])])
        return FALSE
    if p.op in ('fnp', 'null') and q.op in ('fnp', 'null'): return bconst(p is q)
    if {p.op, q.op} == {'ptr', 'fnp'}: return FALSE
    if p.uid > q.uid: p, q = q, p
    return mk('peq', (p, q), 'b')

def pp(t, d=0):
    op, a = t.op, t.a
    if d > 12: return '..'
    P = lambda x: pp(x, d+1)
    if op in ('c', 'v', 'bv', 'k'): return str(a[0])
    if op == 'dc':
        f = float(a[0]); return repr(f)
    if op == 'lin':
        s = ' + '.join(('%d*%s' % (k, P(x)) if k != 1 else P(x)) for x, k in a[1])
        return '(%s%s)' % (s, ' + %d' % a[0] if a[0] else '')
    if op == 'mono': return '*'.join(map(P, a))
    if op == 'le0':
        return '%s<=0' % P(a[0])
    if op == 'eq0': return '%s==0' % P(a[0])
    if op == 'not': return '!' + P(a[0])
    if op == 'and': return '(' + ' & '.join(map(P, a)) + ')'
    if op == 'or': return '(' + ' | '.join(map(P, a)) + ')'
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(map(P, a))
    if op == 'dadd': return '(%s + %s)' % (P(a[0]), P(a[1]))
    if op == 'dmul': return '%s*%s' % (P(a[0]), P(a[1]))
    if op == 'ddiv': return '(%s/%s)' % (P(a[0]), P(a[1]))
    if op == 'dneg': return '-' + P(a[0])
    if op == 'dlt': return '%s<%s' % (P(a[0]), P(a[1]))
    if op == 'deq': return '%s==%s' % (P(a[0]), P(a[1]))
    if op in ('app', 'appr', 'fn'): return '%s(%s)' % (a[0], ', '.join(P(x) for x in a[1:] if type(x) is T))
    if op == 'ptr': return '&%s%s+%s' % (a[0].name, ''.join('[%s]' % P(x) for x in a[1]), P(a[2]))
    return '%s(%s)' % (op, ', '.join(P(x) if type(x) is T else str(x) for x in a))
