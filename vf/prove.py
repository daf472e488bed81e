"""Discharging equalities and implications between terms."""
import time, itertools, z3
from .terms import *
from . import terms as TM
from . import solve, ratnf
from .solve import model_point, z3_check, nf_zero, TooBig, Point, close, Undef
from .sym import atoms
import mpmath

import os
DEBUG = os.environ.get('VF_LEAF')
STATS = dict(nf=0, z3=0, syntactic=0, pit=0)
DEADLINE = [None]
class OutOfTime(Exception): pass
def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise OutOfTime()

def real_conds(t):
    """conditions of ite nodes reachable through real/int arithmetic (outermost first)"""
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': out.append(x.a[0])
        if x.op in ('dsum', 'dprod', 'sum', 'ex', 'first'): st.append(x.a[1]); continue
        st.extend(subterms(x))
    return out

def has_dreal(c):
    seen = set(); st = [c]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('dlt', 'deq'): return True
        st.extend(subterms(x))
    return False

class Result:
    def __init__(s, ok, how, detail='', point=None, guard=None): s.ok = ok; s.how = how; s.detail = detail; s.point = point; s.guard = guard

def strip_cond(c):
    while c.op == 'not': c = c.a[0]
    return c

def cases(t, g, facts, limit=400, solver=None):
    """split on the conditions of t; yields (leaf, guard)"""
    n = [0]
    def go(t, g):
        tick()
        t = under(t, g) if g is not TRUE else t
        cs = real_conds(t)
        if not cs:
            n[0] += 1
            if n[0] > limit: raise TooBig()
            yield t, g; return
        # choose an atomic condition
        c = cs[0]
        while c.op in ('and', 'or', 'not'): c = c.a[0]
        for lit in (c, not_(c)):
            g2 = and_(g, lit)
            if g2 is FALSE: continue
            if solver is not None and solver(g2): continue
            t2 = subst(t, {c: TRUE if lit is c else FALSE}) if c.op not in ('true', 'false') else t
            yield from go(t2, g2)
    yield from go(t, g)

def strengthen(ge):
    """a sum of non-negative ... placeholder"""
    return ge

def prove_eq(a, b, g=TRUE, facts=(), seed=1, points=6, sampler=None, exact_only=False, timeout=20000):
    """a == b under g (and the facts).  -> Result"""
    tick()
    a = under(a, g) if g is not TRUE else a; b = under(b, g) if g is not TRUE else b
    if a is b or g is FALSE: STATS['syntactic'] += 1; return Result(True, 'syntactic')
    if a.s in ('i', 'b', 'p') and b.s == a.s:
        d = not_(eq(a, b)) if a.s == 'i' else (not_(iff(a, b)) if a.s == 'b' else not_(TM.peq(a, b)))
        return prove(not_(d), g, facts, timeout=timeout, sampler=sampler, seed=seed)
    if a.s == 'm' or b.s == 'm': return pit(a, b, g, facts, seed, points, sampler)
    t = dsub(a, b)
    undec = []
    solver = solve.make_solver(list(facts), 2000)
    try:
        for leaf, gl in cases(t, g, facts, solver=solver):
            tick()
            if leaf is D0: continue
            if 'undef' in ops(leaf):
                if solver(gl): continue
                undec.append((leaf, gl)); continue
            leaf = eqsubst(leaf, gl)
            try: z = nf_zero(leaf)
            except TooBig: z = False
            if not z: z = ratnf.zero(leaf)
            if not z:
                if z3_check([gl], facts, 3000) == 'unsat': continue
                if nf_zero(congruence(leaf, gl, facts)): continue
                undec.append((leaf, gl))
                if len(undec) >= 6: break
                if DEBUG: print('LEAF', pp(leaf)[:1500], '  IF ', pp(gl)[:500])
        if not undec:
            STATS['nf'] += 1; return Result(True, 'nf')
    except (TooBig, RecursionError) as e_:
        if DEBUG: import traceback; traceback.print_exc(limit=-3)
        undec.append((t, g))
    if exact_only: return Result(None, 'undecided', pp(undec[0][0])[:300])
    if havoced(a, b, g): return Result(None, 'undecided', 'depends on a recurrence without closed form: ' + pp(undec[0][0])[:200])
    # leaves without a normal-form proof: look for a refuting point; agreement at random points is not a proof
    for leaf, gl in undec[:12]:
        r = pit(a, b, gl, facts, seed, points, sampler)
        if r.ok is False: return r
        if r.ok is None: break
    if r.ok and r.how == 'pit' and not any(gl is g for _, gl in undec):
        r2 = pit(a, b, g, facts, seed, points, sampler)
        if r2.ok is False: return r2
    return r

def congruence(t, g, facts):
    """identify reads of the same array whose indices are provably equal under g"""
    from .sym import atoms
    by = {}
    for x in atoms(t):
        if x.op == 'app' and x.s in 'di' and len(x.a) > 1: by.setdefault((x.a[0], len(x.a)), []).append(x)
    m = {}
    for xs in by.values():
        xs.sort(key=lambda x: x.uid); reps = []
        for x in xs[:8]:
            for y in reps:
                d = [not_(eq(p, q)) for p, q in zip(x.a[1:], y.a[1:]) if isinstance(p, T) and isinstance(q, T) and p.s == 'i' and q.s == 'i' and p is not q]
                if any(not isinstance(p, T) and p != q for p, q in zip(x.a[1:], y.a[1:])): continue
                if any(l is TRUE for l in d): continue
                if z3_check([g, TM.orl(d)], facts, 1500) == 'unsat': m[x] = y; break
            else: reps.append(x)
    return subst(t, m) if m else t

def eqsubst(t, g):
    """use the equations of the guard"""
    m = {}
    for l in conj(g):
        if l.op == 'deq':
            x, y = l.a
            if x.op == 'dc': x, y = y, x
            if x.op == 'v' and y.op == 'dc': m[x] = y
        if l.op != 'eq0': continue
        c, d = lin(subst(l.a[0], m) if m else l.a[0])
        for x, k in sorted(d.items(), key=lambda z: (z[0].op == 'app', -z[0].uid)):
            if k in (1, -1) and x.op in ('v', 'app', 'k'):
                d2 = dict(d); del d2[x]; r = scale(-k, mklin(c, d2))
                from .sym import occurs
                if occurs(r, x): continue
                m = {y: subst(v, {x: r}) for y, v in m.items()}; m[x] = r
                break
    return subst(t, m) if m else t

def havoced(*ts):
    return any(x.op == 'app' and str(x.a[0]).startswith(('HAVOC', 'ANY')) for t in ts for x in atoms(t))
def ops(t):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); out.add(x.op); st.extend(subterms(x))
    return out

def sample(g, facts, seed, sampler=None, tries=300):
    """a random point satisfying g (and the quantifier-free facts)"""
    fs = [f for f in facts if not (type(f) is tuple)]
    eqs = [l for f in [g] + fs for l in conj(f) if l.op == 'eq0']
    for k in range(tries):
        p = sampler(seed*1000 + k) if sampler else Point(seed*1000 + k)
        try:
            settle(p, eqs)
            if all(p.val(f) for f in fs) and p.val(g): return p
        except (Undef, ZeroDivisionError, ValueError, TypeError): continue
    # ask z3 for a model and pin the point to it
    for k in range(6):
        p = sampler(seed*1000 + 500 + k) if sampler else Point(seed*1000 + 500 + k)
        try:
            if not model_point([g] + fs, [f for f in facts if type(f) is tuple], p, spread=seed*1000 + k if k < 3 else None): return None
            full = dict(p.defs)
            for keep in ('i', 'all'):        # real arrays keep distinct elements when the conditions allow it
                p.defs = full if keep == 'all' else {n: v for n, v in full.items() if n not in p.realdefs}; p.memo = {}; p.used = {}
                if all(p.val(f) for f in fs) and p.val(g): return p
        except (Undef, ZeroDivisionError, ValueError, TypeError, KeyError, z3.Z3Exception): continue
    return None

def settle(p, eqs):
    """give atoms defined by an equation of the conditions their value"""
    done = set()
    for l in eqs:
        c, d = lin(l.a[0])
        for x, k in sorted(d.items(), key=lambda z: (z[0].op == 'app', -z[0].uid)):
            if k in (1, -1) and x.op in ('v', 'app') and not x.fv and x not in done:
                r = mklin(c, {y: q for y, q in d.items() if y is not x})
                from .sym import occurs
                if occurs(r, x): continue
                v = -k*int(p.val(r)); p.pins[(x.a[0],) + tuple(p.val(y) for y in x.a[1:] if type(y) is T)] = v; p.memo = {}; done.add(x)
                break

def pit(a, b, g, facts, seed, points, sampler=None):
    """random evaluation: agreement at `points` random points satisfying g"""
    n = 0; tries = 0
    STATS['pit'] += 1
    while n < points and tries < points*4:
        tick()
        tries += 1
        p = sample(g, facts, seed*77 + tries, sampler)
        if p is None: break
        try: x, y = p.val(a), p.val(b)
        except (Undef, ZeroDivisionError, ValueError, TypeError, OverflowError) as e:
            if isinstance(e, Undef): return Result(False, 'pit', 'an undefined (never written) value is used', p, g)
            continue
        if isinstance(x, mpmath.mpc) or isinstance(y, mpmath.mpc): continue
        if not close(x, y, mpmath.mpf(10)**-11): return Result(False, 'pit', 'code: %s  contract: %s' % (num(x), num(y)), p, g)
        n += 1
    if n == 0:
        # no point found: vacuous?
        if z3_check([g], facts, 5000) == 'unsat': return Result(True, 'z3')
        if z3_check([g, not_(eq(a, b) if a.s in 'ip' else deq(a, b) if a.s == 'd' else iff(a, b))], facts, 10000) == 'unsat': return Result(True, 'z3')
        return Result(None, 'undecided', 'no sample point')
    # agreement at the sampled points: look for a point of disagreement the solver can suggest (or a proof that there is none)
    d = not_(eq(a, b)) if a.s == 'i' else not_(TM.peq(a, b)) if a.s == 'p' else not_(deq(a, b)) if a.s == 'd' else None
    if d is not None:
        if z3_check([g, d], facts, 3000) == 'unsat': return Result(True, 'z3')
        for k in range(3):
            p = sample(and_(g, d), facts, seed*77 + 900 + k, sampler, tries=40)
            if p is None: break
            try: x, y = p.val(a), p.val(b)
            except (Undef, ZeroDivisionError, ValueError, TypeError, OverflowError): continue
            if isinstance(x, mpmath.mpc) or isinstance(y, mpmath.mpc): continue
            if not close(x, y, mpmath.mpf(10)**-11): return Result(False, 'pit', 'code: %s  contract: %s' % (num(x), num(y)), p, g)
    return Result(True, 'pit')
def num(x):
    try: return mpmath.nstr(x, 12)
    except Exception: return str(x)[:200]

def prove(c, g=TRUE, facts=(), timeout=20000, sampler=None, seed=1):
    """g => c.  -> Result (with a model point when refuted)"""
    tick()
    q = and_(g, not_(c))
    if q is FALSE: STATS['syntactic'] += 1; return Result(True, 'syntactic')
    r, m_, Zt = z3_check([q], facts, timeout, want_model=True); STATS['z3'] += 1
    if r == 'unsat': return Result(True, 'z3')
    if havoced(q): return Result(None, 'undecided', 'depends on a recurrence without closed form: ' + pp(q)[:200])
    p = None
    try: p = sample(q, facts, seed, sampler)
    except OutOfTime: raise
    except Exception: p = None
    if p is not None: return Result(False, 'z3', pp(q)[:400], p, q)
    if r == 'sat' and not Zt.inexact: return Result(False, 'z3-model', pp(q)[:400], None, q)
    return Result(None, 'undecided', pp(q)[:300])
