"""Exact zero test of real expressions: numerator over factored denominators, with the relations
sqrt(x)^2 = x, pow(x, n + f) = x^n pow(x, f), cos(atan x) = 1/sqrt(1 + x^2), sin(atan x) = x/sqrt(1 + x^2), sin^2 = 1 - cos^2.
(x > 0 where a root or a power of x is defined and used as a divisor.)"""
import os
from fractions import Fraction
from .terms import *
from . import solve
from .solve import pmul, padd_, ONEP, TooBig, canon_arg
class N:
    __slots__ = ('n', 'd')          # numerator polynomial; {factor key: exponent}, factors in ctx.fac
    def __init__(s, n, d): s.n, s.d = n, d
class Norm:
    def __init__(s): s.memo = {}; s.fac = {}; s.sq = {}; s.cmemo = {}
    def factor(s, p):
        """polynomial -> (constant, {key: exp}) ; monomials are split into their atoms"""
        if len(p) == 1:
            (m, c), = p.items(); d = {}
            for x, e in m:
                k = (((x.uid, 1),),); s.fac[k] = {((x, 1),): Fraction(1)}; d[k] = e
            return c, d
        # common monomial
        ms = list(p); com = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            com = {x: min(e, dm[x]) for x, e in com.items() if x in dm}
        d = {}
        if com:
            q = {}
            for m, c in p.items(): q[tuple((x, e - com.get(x, 0)) for x, e in m if e - com.get(x, 0))] = c
            p = q
            for x, e in com.items():
                k = (((x.uid, 1),),); s.fac[k] = {((x, 1),): Fraction(1)}; d[k] = e
        lead = min(p, key=lambda m: tuple((x.uid, e) for x, e in m)); c = p[lead]
        p = {m: v/c for m, v in p.items()}
        k = tuple(sorted((tuple((x.uid, e) for x, e in m), v) for m, v in p.items())); s.fac[k] = p; d[k] = d.get(k, 0) + 1
        return c, d
    def power(s, k, e):
        r = ONEP
        for _ in range(e): r = pmul(r, s.fac[k])
        return r
    def reduce(s, p):
        """apply the square relations of the atoms"""
        for _ in range(60):
            for m in p:
                hit = next((x for x, e in m if e >= 2 and x in s.sq), None)
                if hit is not None: break
            else: return N(p, {})
            rep = s.sq[hit]                 # N: value of hit^2
            hi = max(e for m in p for x, e in m if x is hit)//2
            # p = sum_j hit^(2j) * p_j  -> sum_j rep.n^j rep.d^(hi-j) p_j / rep.d^hi
            parts = {}
            for m, c in p.items():
                e = dict(m).get(hit, 0); j = e//2
                m2 = tuple((x, (f if x is not hit else f - 2*j)) for x, f in m if not (x is hit and f - 2*j == 0))
                q = parts.setdefault(j, {}); q[m2] = q.get(m2, 0) + c
            dn = ONEP
            for k, e in rep.d.items(): dn = pmul(dn, s.power(k, e))
            tot = {}
            for j, q in parts.items():
                for _ in range(j): q = pmul(q, rep.n)
                for _ in range(hi - j): q = pmul(q, dn)
                tot = padd_(tot, q)
            r = s.reduce(tot)
            d = dict(r.d)
            for k, e in rep.d.items(): d[k] = d.get(k, 0) + e*hi
            return N(r.n, d)
        raise TooBig()
    def add(s, x, y):
        d = {k: max(x.d.get(k, 0), y.d.get(k, 0)) for k in set(x.d) | set(y.d)}
        def up(z):
            p = z.n
            for k, e in d.items():
                f = e - z.d.get(k, 0)
                for _ in range(f): p = pmul(p, s.fac[k])
            return p
        return N(padd_(up(x), up(y)), d)
    def mul(s, x, y):
        d = dict(x.d)
        for k, e in y.d.items(): d[k] = d.get(k, 0) + e
        r = s.reduce(pmul(x.n, y.n))
        for k, e in r.d.items(): d[k] = d.get(k, 0) + e
        return s.cancel(N(r.n, d))
    def cancel(s, x):
        """atoms of the numerator against atoms of the denominator"""
        if not x.n: return N({}, {})
        d = dict(x.d); n = x.n
        for k in list(d):
            f = s.fac[k]
            if len(f) != 1: continue
            (m, c), = f.items(); a = m[0][0]
            e = min(min(dict(q).get(a, 0) for q in n), d[k])
            if e:
                n = {tuple((y, g - (e if y is a else 0)) for y, g in q if g - (e if y is a else 0)): v for q, v in n.items()}
                d[k] -= e
                if not d[k]: del d[k]
        return N(n, d)
    def inv(s, y):
        if not y.n: raise ZeroDivisionError
        c, d = s.factor(y.n); p = {(): 1/c}
        num = dict(y.d)
        for k in list(d):
            e = min(d[k], num.get(k, 0))
            if e:
                d[k] -= e; num[k] -= e
                if not d[k]: del d[k]
        for k, e in num.items(): p = pmul(p, s.power(k, e))
        r = s.reduce(p); dd = dict(d)
        for k, e in r.d.items(): dd[k] = dd.get(k, 0) + e
        return s.cancel(N(r.n, dd))
    def atom(s, t): return N({((t, 1),): Fraction(1)}, {})
    def key(s, x):
        return mk('rfn', (tuple(sorted((tuple((y.uid, e) for y, e in m), c) for m, c in x.n.items())), tuple(sorted(x.d.items()))), 'd')
    def nf(s, t):
        r = s.memo.get(t)
        if r is None: r = s.memo[t] = s._nf(t)
        return r
    def _nf(s, t):
        op, a = t.op, t.a
        if op == 'dc': return N({(): a[0]} if a[0] else {}, {})
        if op == 'dadd': return s.add(s.nf(a[0]), s.nf(a[1]))
        if op == 'dneg': x = s.nf(a[0]); return N({m: -c for m, c in x.n.items()}, x.d)
        if op == 'dmul': return s.mul(s.nf(a[0]), s.nf(a[1]))
        if op == 'ddiv': return s.mul(s.nf(a[0]), s.inv(s.nf(a[1])))
        if op == 'i2d':
            x = solve._nf(t, {}); return N(x.n, {})
        if op == 'fn':
            f = a[0]
            if f in solve.EVEN or f in solve.ODD:
                x = s.nf(a[1])
                if solve.negative(x.n):
                    r = s.nf(dfn(f, dneg(a[1])))
                    return r if f in solve.EVEN else N({m: -c for m, c in r.n.items()}, r.d)
            if f == 'sqrt':
                x = s.nf(a[1]); at = mk('fn', ('sqrt', s.key(x)), 'd', fv=t.fv); s.sq[at] = x; return s.atom(at)
            if f in ('cos', 'sin') and a[1].op == 'fn' and a[1].a[0] == 'atan':
                x = a[1].a[1]; r = dfn('sqrt', dadd(D1, dmul(x, x)))
                return s.nf(ddiv(D1 if f == 'cos' else x, r))
            if f == 'sin':
                k = s.key(s.nf(a[1])); at = mk('fn', ('sin', k), 'd', fv=t.fv); c = mk('fn', ('cos', k), 'd', fv=t.fv)
                s.sq[at] = N({(): Fraction(1), ((c, 2),): Fraction(-1)}, {}); return s.atom(at)
            if f == 'pow':
                y = a[2]; x = s.nf(a[1]); q = s.nf(y)
                if not q.d:
                    c = q.n.get((), Fraction(0)); w = c.numerator//c.denominator; fr = c - w
                    rest = {m: v for m, v in q.n.items() if m != ()}
                    if fr: rest[()] = fr
                    base = N(ONEP, {})
                    if rest:
                        if rest == {(): Fraction(1, 2)}: return s.mul(s.nf(dfn('sqrt', a[1])), s.ipow(x, w))
                        base = s.atom(mk('fn', ('pow', s.key(x), s.key(N(rest, {}))), 'd', fv=t.fv))
                    return s.mul(base, s.ipow(x, w))
            return s.atom(mk('fn', (f,) + tuple(s.key(s.nf(x)) for x in a[1:]), 'd', fv=t.fv))
        return s.atom(t)
    def ipow(s, x, w):
        if w < 0: x = s.inv(x); w = -w
        r = N(ONEP, {})
        for _ in range(w): r = s.mul(r, x)
        return r
def zero(t):
    if any(x.op == 'fn' and x.a[0] in solve.MATFNS for x in solve.all_fns(t)): return False
    old, solve.LIM = solve.LIM, 100000
    try: z = Norm(); x = z.nf(t); return not z.reduce(x.n).n
    except (TooBig, ZeroDivisionError): return False
    finally: solve.LIM = old
