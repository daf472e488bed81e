"""C25: phase function polynomials and their sums, scattering vectors, local scattering operators and the mirror symmetry."""
from vf.contract import *
from vf.terms import *
from vf import solve, mat, prove
from vf.mat import mm, E, sm, diag
FLOOR = 60
NAME = 'phase'
SC, UT, RT = 'src/xrtm_scatter.c', 'src/xrtm_utility.c', 'misc/rtutil_math.c'
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
def two(S): return ite(eq(S.a['i_four'], ZERO), D1, dc(2))
def I(n): return Int(n, 0, 100000)
def dsq(x): return dmul(x, x)
def prod_(n, f):
    from vf.loops import dprod
    k = bound_var(); return dprod(k, ite(le(ZERO, n), n, ZERO), f(k))
def run(ctx):
    jobs = []
    def K(name, srcs, *a, **k):
        jobs.append((name, srcs, Contract(*a, replay=False, **k)))
    # ---- polynomials: the values follow the three-term recurrence of the polynomials from their first two members
    def recur(name, dim, nm, mu, rec):
        """V(i, n): member n at point i; rec(S, i, n, V): its definition"""
        def V(S, path): i, n = (path if dim else (None, path[0])); return app(nm, (mu(S, i), n), 'd')
        def D(S, path):
            i, n = (path if dim else (None, path[0])); x = mu(S, i)
            return rec(S, x, n, lambda d: app(nm, (x, sub(n, ic(d))), 'd'))
        return V, D
    def poly(fn, pars, arrs, base=2, first=lambda S: ZERO, req=None, extra=(), setup0=None):
        """arrs: name -> definition; members below first+base by definition, the others by the recurrence"""
        def setup(S):
            if setup0: setup0(S)
            for a, (dim, V, D) in R.items(): S.ex.recur[S.data(a)] = (dim, base, lambda p, V=V: V(S, p), lambda p, D=D: D(S, p))
        R = {}; ens = list(extra)
        for a, (dim, mu, rec) in arrs.items():
            V, D = recur(a, dim, 'poly:' + a, mu, rec); R[a] = (dim, V, D)
            def inn(S, i, n, dim=dim): return and_(inb(n, S.a['n_l']), inb(i, S.a['n_mu']) if dim else TRUE)
            for b in range(base + 1):
                def f(S, *ix, b=b, D=D, inn=inn):
                    n = ix[-1]; i = ix[0]; n0 = add(first(S), ic(b)); p = tuple(ix[:-1]) + (n0,)
                    return and_(inn(S, i, n), eq(n, n0)), D(S, p)
                if b < base: ens.append((a, 1 + dim, f))
            def hi(S, *ix, V=V, inn=inn): return and_(inn(S, ix[0], ix[-1]), le(add(first(S), ic(base)), ix[-1])), V(S, tuple(ix))
            ens.append((a, 1 + dim, hi))
            def lo(S, *ix, inn=inn): return and_(inn(S, ix[0], ix[-1]), lt(ix[-1], first(S))), D0
            if first(None.__class__ and FakeS) is not ZERO: ens.append((a, 1 + dim, lo))
        K(fn, [RT], fn, pars, ens, setup=setup, requires=req)
    class FakeS: a = {'m': ivar('m')}
    def legendre(S, x, n, V):
        d = i2d(n); r = ddiv(dsub(dmul(dmul(dsub(dmul(dc(2), d), D1), x), V(1)), dmul(dsub(d, D1), V(2))), d)
        return ite(eq(n, ZERO), D1, ite(eq(n, ONE), x, r))
    poly('leg_poly2', [Int('n_mu', 0, 100000), Int('n_l', 1, 100000), Arr('mu', 'd', 'n_mu'), Arr('p', 'd', 'n_mu', 'n_l')], {'p': (1, lambda S, i: S.v('mu', i), legendre)})
    poly('leg_poly', [Int('n_l', 1, 100000), Dbl('mu'), Arr('p', 'd', 'n_l')], {'p': (0, lambda S, i: S.a['mu'], legendre)})
    # normalised associated functions of order m
    def cn(S, x, f): return ite(not_(eq0(S.a['flag'])), ite(eq(S.a['m'], ZERO), D1, dmul(S.v(x, 0), f)), S.v(x, 0))
    def nrm(S, s): a = dmul(dc(2), i2d(S.a['m'])); return dneg(dfn('sqrt', ddiv(dadd(a, dc(s)), a)))
    def assoc(S, x, n, V):
        m = S.a['m']; d = i2d(n); md = i2d(m); pw = dfn('pow', dsub(D1, dsq(x)), ddiv(md, dc(2)))
        q = lambda k: dfn('sqrt', i2d(mul(add(sub(n, ic(k)), m), sub(sub(n, ic(k)), m))))
        r = ddiv(dsub(dmul(dmul(dsub(dmul(dc(2), d), D1), x), V(1)), dmul(q(1), V(2))), q(0))
        z = eq(m, ZERO)
        return ite(eq(n, m), ite(z, D1, dmul(cn(S, 'cn', nrm(S, -1)), pw)), ite(eq(n, add(m, ONE)), ite(z, x, dmul(dmul(cn(S, 'dn', nrm(S, 1)), x), pw)), r))
    one = lambda nm, s: (nm, 1, lambda S, i: (eq(i, ZERO), cn(S, nm, nrm(S, s))))
    poly('leg_poly_assoc2', [Int('m', 0, 1000), Int('n_mu', 0, 100000), Int('n_l', 1, 100000), Arr('mu', 'd', 'n_mu'), Arr('cn', 'd', 1), Arr('dn', 'd', 1), Arr('y', 'd', 'n_mu', 'n_l'), Int('flag')],
         {'y': (1, lambda S, i: S.v('mu', i), assoc)}, first=lambda S: S.a['m'], req=lambda S: [lt(S.a['m'], S.a['n_l'])], extra=[one('cn', -1), one('dn', 1)])
    # generalised spherical functions (0,0), (0,2), (2,2), (2,-2)
    def gsf(kind):
        def rec(S, x, n, V):
            j = dsub(i2d(n), D1); j1 = i2d(n); t = dadd(dmul(dc(2), j), D1); s4 = lambda q: dsub(dsq(q), dc(4))
            if kind == '00': return ite(eq(n, ic(2)), ddiv(dsub(dmul(dc(3), dsq(x)), D1), dc(2)), legendre(S, x, n, V))
            if kind == '02':
                r = ddiv(dsub(dmul(dmul(t, x), V(1)), dmul(dfn('sqrt', s4(j)), V(2))), dfn('sqrt', s4(j1)))
                b = dmul(ddiv(dfn('sqrt', dc(6)), dc(4)), dsub(dsq(x), D1))
            else:
                sg = dc(4 if kind == '22' else -4)
                r = ddiv(dsub(dmul(dmul(t, dsub(dmul(dmul(j, j1), x), sg)), V(1)), dmul(dmul(j1, s4(j)), V(2))), dmul(j, s4(j1)))
                b = ddiv(dsq(dadd(D1, x) if kind == '22' else dsub(D1, x)), dc(4))
            return ite(lt(n, ic(2)), D0, ite(eq(n, ic(2)), b, r))
        return rec
    for fn in ('gen_spher_funcs_prt2', 'gen_spher_funcs_prt'):
        d2 = fn.endswith('2'); pars = ([Int('n_mu', 0, 100000)] if d2 else []) + [Int('n_l', 1, 100000), Arr('mu', 'd', 'n_mu') if d2 else Dbl('mu')]
        mu = (lambda S, i: S.v('mu', i)) if d2 else (lambda S, i: S.a['mu']); dm = ['n_mu', 'n_l'] if d2 else ['n_l']
        poly(fn, pars + [Arr(a, 'd', *dm) for a in ('p00', 'p0p2', 'p2p2', 'p2m2')], {a: (int(d2), mu, gsf(k)) for a, k in (('p00', '00'), ('p0p2', '02'), ('p2p2', '22'), ('p2m2', '2m'))}, base=3)
    # ---- the matrices of generalised spherical functions of order m: P on the corners, R on the inner diagonal, T off it
    def basic(ns, mm_):
        m_of = lambda S: ic(mm_) if mm_ < 2 else S.a['i_four']
        def kind(r, c):
            if r == c and r in (0, 3): return 'P'
            if ns >= 3 and r == c: return 'R'
            if ns >= 3 and {r, c} == {1, 2} and mm_ > 0: return 'T'
        def start(S, o, kd):
            """member m+o, o < base"""
            x = S.a['mu']; q = dsub(D1, dsq(x)); s = dfn('sqrt', q); s6 = dfn('sqrt', dc(6)); h = dc(Fraction(1, 2))
            if mm_ == 0:
                p2 = ddiv(dsub(dmul(dc(3), dsq(x)), D1), dc(2))
                return {'P': (D1, x, p2), 'R': (D0, D0, dmul(ddiv(s6, dc(4)), q))}[kd][o]
            if mm_ == 1: return {'P': (s, dmul(dc(3), dmul(x, s))), 'R': (D0, dneg(dmul(h, dmul(x, dmul(s, s6))))), 'T': (D0, dmul(h, dmul(s, s6)))}[kd][o]
            m = S.a['i_four']; pw = dfn('pow', q, ddiv(dsub(i2d(m), dc(2)), dc(2))); k = bound_var()
            from vf.loops import dprod
            odd = dprod(k, sub(m, ONE), i2d(add(scale(2, k), ic(3))))               # 3 5 ... 2m-1
            fac = lambda n: FACT(S, D1, n)
            c = dmul(pw, FACT(S, ddiv(D1, dmul(dfn('pow', dc(2), i2d(m)), dfn('sqrt', dmul(fac(sub(m, ic(2))), fac(add(m, ic(2))))))), scale(2, m)))
            v = {'P': dmul(dmul(odd, pw), q), 'R': dmul(c, dadd(D1, dsq(x))), 'T': dneg(dmul(c, dmul(dc(2), x)))}
            if o == 0: return v[kd]
            return step(S, add(m, ONE), kd, lambda kd, d: v[kd] if d == 1 else D0)
        def FACT(S, y, n): return app('fact', (y, n), 'd')
        def step(S, n, kd, V):
            m = i2d(m_of(S)); n_ = i2d(n); j = dsub(n_, D1); g = dadd(dmul(dc(2), j), D1); f = dmul(g, S.a['mu'])
            if kd == 'P': return ddiv(dsub(dmul(f, V('P', 1)), dmul(dadd(j, m), V('P', 2))), dsub(n_, m))
            b = dmul(ddiv(dsub(n_, m), n_), dfn('sqrt', dmul(dadd(n_, dc(2)), dsub(n_, dc(2))))); d = dmul(ddiv(dadd(j, m), j), dfn('sqrt', dsub(dsq(j), dc(4))))
            t = dsub(dmul(f, V(kd, 1)), dmul(d, V(kd, 2)))
            if mm_ > 0: t = dadd(t, dmul(ddiv(dmul(dmul(dc(2), m), g), dmul(j, n_)), V('T' if kd == 'R' else 'R', 1)))
            return ddiv(t, b)
        base = 3 if mm_ == 0 else 2
        def V(S, n, kd): return app('basic:' + kd, (S.a['mu'], n), 'd')
        def D(S, p):
            n, r, c = p; kd = kind(r.a[0], c.a[0])
            if kd is None: return D0
            v = step(S, n, kd, lambda kd, d: V(S, sub(n, ic(d)), kd))
            for o in range(base): v = ite(eq(n, add(m_of(S), ic(o))), start(S, o, kd), v)
            return v
        def setup(S):
            S.ex.recur[S.data('A')] = (0, 2, lambda p: V(S, p[0], kind(p[1].a[0], p[2].a[0])), lambda p: D(S, p))
        ens = []
        for r in range(ns):
            for c in range(ns):
                at = lambda i, j, r=r, c=c: and_(eq(i, ic(r)), eq(j, ic(c)))
                kd = kind(r, c); inn = lambda S, n: lt(n, S.a['n_coef'])
                if kd is None: ens.append(('A', 3, lambda S, n, i, j, at=at, inn=inn: (andl([at(i, j), le(m_of(S), n), inn(S, n)]), D0))); continue
                for o in range(base): ens.append(('A', 3, lambda S, n, i, j, o=o, at=at, kd=kd, inn=inn: (andl([at(i, j), eq(n, add(m_of(S), ic(o))), inn(S, n)]), start(S, o, kd))))
                ens.append(('A', 3, lambda S, n, i, j, at=at, kd=kd, inn=inn: (andl([at(i, j), le(add(m_of(S), ic(base)), n), inn(S, n)]), V(S, n, kd))))
        H = {'factorial_evaluate': lambda ex, g, a, I_: app('fact', (a[0], a[2]), 'd') if a[1] is ic(2) else UNDEF['d'], 'factorial': lambda ex, g, a, I_: app('fact', (D1, a[0]), 'd')}
        io = Other('i_four', lambda S: ic(mm_)) if mm_ < 2 else Int('i_four', 2, 1000)
        K('basic %d %d' % (ns, mm_), [SC, RT, 'misc/gutil_alloc.c'], 'basic_matrix', [io, Int('n_coef', mm_ + 1, 100000), Other('n_stokes', lambda S: ic(ns)), Dbl('mu'), Arr('A', 'd', 'n_coef', ns, ns)], ens, setup=setup, contracts=H, requires=lambda S: [lt(m_of(S), S.a['n_coef'])])
    for ns in (1, 3, 4):
        for m in (0, 1, 2): basic(ns, m)
    K('factorial', [RT], 'factorial_evaluate', [Dbl('y'), Int('x1', 0, 1000), Int('x2', 0, 1000)], [], ret=lambda S: dmul(S.a['y'], prod_(sub(add(S.a['x2'], ONE), S.a['x1']), lambda k: i2d(add(S.a['x1'], k)))))
    # ---- the phase function and its azimuth components, from the coefficients
    K('scat_angle', [SC], 'scat_angle', [Dbl('mu_0'), Dbl('phi_0'), Dbl('mu'), Dbl('phi')], [], ret=lambda S: dadd(dmul(S.a['mu'], S.a['mu_0']),
        dmul(dmul(dfn('sqrt', dsub(D1, dsq(S.a['mu']))), dfn('sqrt', dsub(D1, dsq(S.a['mu_0'])))), dfn('cos', dmul(dsub(S.a['phi'], S.a['phi_0']), dc(Fraction(0.017453292519943295)))))))
    def total(n, f): q = bound_var(); return dsum(q, n, f(q))
    K('phase_func', [SC], 'phase_func', [I('n_coef'), Arr('p', 'd', 'n_coef'), Arr('coefs', 'd', 'n_coef'), Arr('P', 'd', 1)], [('P', 1, lambda S, i: (eq(i, ZERO), total(S.a['n_coef'], lambda q: dmul(S.v('p', q), S.v('coefs', q)))))])
    # members i_four, i_four+2, ... contribute with the same sign to both directions, the others with opposite signs
    def half(S, par, t):
        n = sub(sub(S.a['n_coef'], S.a['i_four']), ic(par)); cnt = ite(lt(ZERO, n), add(tdiv(sub(n, ONE), ic(2)), ONE), ZERO)
        return total(cnt, lambda q: t(add(add(S.a['i_four'], ic(par)), scale(2, q))))
    def both(S, t, s):
        e, o = half(S, 0, t), half(S, 1, t); return dmul(dadd(e, o) if s > 0 else dsub(e, o), two(S))
    hd = [Int('i_four', 0, 1000), I('n_coef')]
    tv = lambda S, i: lambda k: dmul(dmul(S.v('coefs', k), S.v('Y2', k)), S.v('Y1', i, k))
    tm = lambda S, i, j: lambda k: dmul(dmul(S.v('coefs', k), S.v('Y1', i, k)), S.v('Y2', j, k))
    K('phase vecs', [SC], 'build_phase_vecs_scalar', hd + [I('n_mus'), Arr('Y1', 'd', 'n_mus', 'n_coef'), Arr('Y2', 'd', 'n_coef'), Int('lda'), Arr('coefs', 'd', 'n_coef'), Arr('P_pp', 'd', 'n_mus'), Arr('P_mp', 'd', 'n_mus')],
      [(nm, 1, lambda S, i, s=s: (inb(i, S.a['n_mus']), both(S, tv(S, i), s))) for nm, s in (('P_pp', 1), ('P_mp', -1))])
    K('phase mats', [SC], 'build_phase_mats_scalar', hd + [I('n_mus1'), I('n_mus2'), Arr('Y1', 'd', 'n_mus1', 'n_coef'), Arr('Y2', 'd', 'n_mus2', 'n_coef'), Int('lda'), Arr('coefs', 'd', 'n_coef'), Arr('P_pp', 'd', 'n_mus1', 'n_mus2'), Arr('P_mp', 'd', 'n_mus1', 'n_mus2')],
      [(nm, 2, lambda S, i, j, s=s: (and_(inb(i, S.a['n_mus1']), inb(j, S.a['n_mus2'])), both(S, tm(S, i, j), s))) for nm, s in (('P_pp', 1), ('P_mp', -1))])
    # ---- first column of the scattering matrix
    for ns in (1, 2, 3, 4):
        st = Other('n_stokes', lambda S, ns=ns: ic(ns))
        def F(k):
            def gc(S, i):
                n = S.a['n_coef']
                v = total(n, lambda q: dmul(S.v('coefs', 0, q), S.v('gsf', 0, q))) if k == 0 else total(sub(n, ic(2)), lambda q: dmul(S.v('coefs', 4, add(q, ic(2))), S.v('gsf', 1, add(q, ic(2))))) if k == 1 else D0
                return eq(i, ic(k)), v
            def lc(S, i): return eq(i, ic(k)), D0 if k > 1 else total(S.a['n_coef'], lambda q: dmul(S.v('coefs', 4*k, q), S.v('p', q)))
            return gc, lc
        K('scat vector gc %d' % ns, [SC], 'build_scat_vector_gc', [Int('n_coef', 2, 100000), st, Arr('gsf', 'd', 4, 'n_coef'), Arr('coefs', 'd', 6, 'n_coef'), Arr('F', 'd', ns)], [('F', 1, F(k)[0]) for k in range(ns)])
        K('scat vector lc %d' % ns, [SC], 'build_scat_vector_lc', [Int('n_coef', 0, 100000), st, Arr('p', 'd', 'n_coef'), Arr('coefs', 'd', 6, 'n_coef'), Arr('F', 'd', ns)], [('F', 1, F(k)[1]) for k in range(ns)])
    # ---- the scattering matrix, and its first column rotated into the meridian plane
    for flag in (0, 1):
        fl = Other('flag', lambda S, f=flag: ic(f)); two_ = lambda q: add(q, ic(2))
        def G(S, c, g):
            t = lambda q: dmul(S.v('coefs', c, q), S.v('gsf', g, q))
            return dadd(dadd(t(ZERO), t(ONE)), total(sub(S.a['n_coef'], ic(2)), lambda q: t(two_(q))))
        def G2(S, c, g): return total(sub(S.a['n_coef'], ic(2)), lambda q: dmul(S.v('coefs', c, two_(q)), S.v('gsf', g, two_(q))))
        def gce(r, c, flag=flag):
            def f(S, i, j):
                v = D0
                if (r, c) == (0, 0): v = G(S, 0, 0)
                elif flag:
                    if (r, c) == (1, 1): v = G(S, 0, 0)
                    elif r == c: v = G(S, 3, 0)
                    elif {r, c} == {0, 1}: v = G2(S, 4, 1)
                    elif (r, c) == (2, 3): v = G2(S, 5, 1)
                    elif (r, c) == (3, 2): v = dneg(G2(S, 5, 1))
                return and_(eq(i, ic(r)), eq(j, ic(c))), v
            return f
        def lce(r, c, flag=flag):
            def f(S, i, j):
                z = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (3, 3): 3, (0, 1): 4, (1, 0): 4, (2, 3): 5, (3, 2): -5}.get((r, c))
                if z is None or (not flag and z): return and_(eq(i, ic(r)), eq(j, ic(c))), D0
                v = total(S.a['n_coef'], lambda q: dmul(S.v('coefs', abs(z), q), S.v('p', q)))
                return and_(eq(i, ic(r)), eq(j, ic(c))), dneg(v) if z < 0 else v
            return f
        cells = [(r, c) for r in range(4) for c in range(4)]
        K('scat matrix gc %d' % flag, [SC], 'build_scat_matrix_gc', [Int('n_coef', 2, 100000), Arr('gsf', 'd', 4, 'n_coef'), Arr('coefs', 'd', 6, 'n_coef'), Arr('F', 'd', 4, 4), fl], [('F', 2, gce(*x)) for x in cells])
        K('scat matrix lc %d' % flag, [SC], 'build_scat_matrix_lc', [Int('n_coef', 0, 100000), Arr('p', 'd', 'n_coef'), Arr('coefs', 'd', 6, 'n_coef'), Arr('F', 'd', 4, 4), fl], [('F', 2, lce(*x)) for x in cells])
    # ---- the expansion coefficients of one order arranged as a matrix, scaled by c
    for ns in (1, 3, 4):
        cells = {(0, 0): (1, 0)}
        if ns >= 3: cells.update({(1, 1): (1, 1), (0, 1): (-1, 4), (1, 0): (-1, 4), (2, 2): (1, 2)})
        if ns >= 4: cells.update({(3, 3): (1, 3), (2, 3): (1, 5), (3, 2): (-1, 5)})
        def at(r, c, ns=ns, cells=cells):
            def f(S, i, j):
                k = cells.get((r, c)); w = and_(eq(i, ic(r)), eq(j, ic(c)))
                if k is None: return w, S.v('B', i, j)
                v = dmul(S.a['c'], S.v('gc', k[1], S.a['i'])); return w, v if k[0] > 0 else dneg(v)
            return f
        K('gc_to_B %d' % ns, [SC], 'gc_to_B', [Int('i', 0, 100000), Other('n_stokes', lambda S, ns=ns: ic(ns)), Arr('gc', 'd', 6, 'n_coef'), Arr('B', 'd', ns, ns), Dbl('c')], [('B', 2, at(r, c)) for r in range(ns) for c in range(ns)])
    # ---- the polynomials written out for the four- and six-stream solvers, up to a sign of each member (they are only used in products of two values of a member)
    from math import factorial as F_
    def plm(l, m, x):
        t = D0
        for k in range((l - m) // 2 + 1):
            c = Fraction((-1)**k * F_(2*l - 2*k), 2**l * F_(k) * F_(l - k) * F_(l - 2*k - m)); p = dc(c)
            for _ in range(l - 2*k - m): p = dmul(p, x)
            t = dadd(t, p)
        r = dfn('sqrt', dsub(D1, dsq(x)))
        for _ in range(m): t = dmul(t, r)
        return ddiv(t, dfn('sqrt', dc(Fraction(F_(l + m), F_(l - m))))) if m else t
    def signed(m):
        def ex(ctx, S, rv, pre, smp):
            for l in range(m, 6):
                a = S.out('Y', ic(l)); v = plm(l, m, S.a['x']); r = prove.prove_eq(a, v, pre, sampler=smp)
                if m and r.ok is not True:
                    r2 = prove.prove_eq(a, dneg(v), pre, sampler=smp)
                    if r2.ok is True: r = r2
                yield 'calc_Y_x %d: Y[%d]' % (m, l), r
        return ex
    for m in range(6): K('calc_Y_x %d' % m, [SC], 'calc_Y_x', [Other('i_four', lambda S, m=m: ic(m)), Dbl('x'), Arr('Y', 'd', 6)], [('Y', 1, lambda S, i, m=m: (and_(le(ic(m), i), lt(i, ic(6))), S.out('Y', i)))], extra=signed(m), real_ranges={'x': (Fraction(-9, 10), Fraction(9, 10))})
    for ns in (1, 2, 3, 4):
        def rot(k):
            def f(S, i):
                x, y, M_ = S.a['mu'], S.a['mu_prime'], S.a['MU']; root = lambda t: dfn('sqrt', dsub(D1, dsq(t))); ss, sp = root(M_), root(y); az = dmul(S.a['d_phi'], dc(Fraction(0.017453292519943295)))
                c = ite(deq(ss, D0), D0, ite(deq(sp, D0), dfn('cos', az), ddiv(dsub(x, dmul(y, M_)), dmul(sp, ss)))); c2 = dsq(c); q = dsub(D1, c2)
                s_ = ite(dlt(q, D0), D0, dmul(dmul(dc(2), dfn('sqrt', q)), c)); s_ = ite(dlt(dfn('sin', az), D0), dneg(s_), s_)
                p1 = S.v('P1', 1) if ns > 1 else None
                return eq(i, ic(k)), [lambda: S.v('P1', 0), lambda: dmul(p1, dsub(dmul(dc(2), c2), D1)), lambda: dneg(dmul(p1, s_)), lambda: D0][k]()
            return f
        for alias in (0, 1):
            out = 'P1' if alias else 'P2'
            K('rotate %d %d' % (ns, alias), [SC], 'scat_vector_rotate_hovenier', [Other('n_stokes', lambda S, ns=ns: ic(ns)), Dbl('mu'), Dbl('mu_prime'), Dbl('MU'), Dbl('d_phi'), Arr('P1', 'd', ns), Alias('P2', 'P1') if alias else Arr('P2', 'd', ns)], [(out, 1, rot(k)) for k in range(ns)])
    # ---- the mirror matrix D = diag(1, 1, -1, -1): products with it and the relation of the two hemispheres
    for ns in (1, 2, 3, 4):
        N = lambda f, ns=ns: (lambda S: scale(ns, S.a[f])); st = Other('n_stokes', lambda S, ns=ns: ic(ns))
        def el(x, r): return eq(x, add(scale(ns, tdiv(x, ic(ns))), ic(r)))         # x is element r of its block
        sg = lambda r: -1 if r >= 2 else 1
        def v_(src):
            def mk_(r): return lambda S, i, ns=ns: (and_(inb(i, scale(ns, S.a['n_quad'])), eq(i, add(scale(ns, tdiv(i, ic(ns))), ic(r)))), S.v(src, i) if sg(r) > 0 else dneg(S.v(src, i)))
            return [mk_(r) for r in range(ns)]
        def m_(src):
            def mk_(r): return lambda S, i, j, ns=ns: (andl([inb(i, scale(ns, S.a['n_quad1'])), inb(j, scale(ns, S.a['n_quad2'])), eq(i, add(scale(ns, tdiv(i, ic(ns))), ic(r)))]), S.v(src, i, j) if sg(r) > 0 else dneg(S.v(src, i, j)))
            return [mk_(r) for r in range(ns)]
        for alias in (0, 1):
            o = 'a' if alias else 'b'
            K('mirror vec %d %d' % (ns, alias), [UT], 'dm_v_mul_D_A', [I('n_quad'), st, Arr('a', 'd', N('n_quad')), Alias('b', 'a') if alias else Arr('b', 'd', N('n_quad'))], [(o, 1, f) for f in v_('a')])
            K('mirror mat %d %d' % (ns, alias), [UT], 'dmat_mul_D_A2', [I('n_quad1'), st, I('n_quad2'), Other('n_stokes2', lambda S, ns=ns: ic(ns)), Arr('a', 'd', N('n_quad1'), N('n_quad2')), Alias('b', 'a') if alias else Arr('b', 'd', N('n_quad1'), N('n_quad2'))], [(o, 2, f) for f in m_('a')])
        for pos in (0, 1):
            ens = []
            for o, src in (('P_mm', 'P_pp'), ('P_pm', 'P_mp')):
                for r in range(ns):
                    for c in range(ns):
                        def f(S, i, j, ns=ns, r=r, c=c, src=src):
                            q = lambda x, r: eq(x, add(scale(ns, tdiv(x, ic(ns))), ic(r)))
                            return andl([inb(i, scale(ns, S.a['n_quad1'])), inb(j, scale(ns, S.a['n_quad2'])), q(i, r), q(j, c)]), dmul(dmul(S.a['f'], dc(sg(r) * sg(c))), S.v(src, i, j))
                        ens.append((o, 2, f))
            K('symmetry %d %d' % (ns, pos), [SC], 'phase_matrix_symmetry3', [I('n_quad1'), st, I('n_quad2'), Other('n_stokes2', lambda S, ns=ns: ic(ns))] + [Arr(x, 'd', N('n_quad1'), N('n_quad2'), contig=True) for x in ('P_pp', 'P_mp', 'P_mm', 'P_pm')] + [Other('f', lambda S, pos=pos: dc(1 if pos else -1))], ens)
    # ---- local operators
    n = ivar('n_quad'); M = lambda x: Arr(x, 'd', 1); ML = lambda x: Arr(x, 'd', 'n_derivs', 1); nd = Int('n_derivs', 0, 1000000); W = Other('work', mat.workstruct); der = Arr('derivs', 'uc', 'n_derivs')
    OR = app('flags_or', (), 'i', (0, 1))
    H = dict(mat.handlers(n)); H['flags_or'] = lambda ex, g, a, I_: OR
    act = lambda S, k: and_(inb(k, S.a['n_derivs']), not_(eq0(S.v('derivs', k))))
    def local(S, sg, om, P): return sm(dmul(ddiv(dmul(dc(sg), dadd(D1, ite(eq(S.a['i_four'], ZERO), D1, D0))), dc(4)), om), mm(diag(dfn('dinvv', S.v('qx_v', 0))), mm(P, diag(S.v('qw_v', 0)))))
    kinds = {x: 'M' for x in ('P_p', 'P_m', 'r', 't', 'P_p_l', 'P_m_l', 'r_l', 't_l', 'r_p', 't_p', 'tpr', 'tmr', 'gamma', 'r_p_l', 't_p_l', 'tpr_l', 'tmr_l', 'gamma_l')} | {'qx_v': 'V', 'qw_v': 'V'}
    def rv(S, i): return eq(i, ZERO), local(S, -1, S.a['omega'], S.v('P_m', 0))
    def tvv(S, i): return eq(i, ZERO), dsub(local(S, 1, S.a['omega'], S.v('P_p', 0)), dfn('diag', dfn('dinvv', S.v('qx_v', 0))))
    def dl(sg, P):
        return lambda S, k, i: (andl([act(S, k), not_(eq0(OR)), eq(i, ZERO)]), dadd(local(S, sg, S.v('omega_l', k), S.v(P, 0)), local(S, sg, S.a['omega'], S.v(P + '_l', k, 0))))
    K('local r, t', [UT], 'build_local_r_and_t', [Int('i_four', 0, 1000), I('n_quad'), nd, M('qx_v'), M('qw_v'), Dbl('omega'), Arr('omega_l', 'd', 'n_derivs'), M('P_p'), M('P_m'), M('r'), M('t'), ML('P_p_l'), ML('P_m_l'), ML('r_l'), ML('t_l'), der, W],
      [('r', 1, rv), ('t', 1, tvv), ('r_l', 2, dl(-1, 'P_m')), ('t_l', 2, dl(1, 'P_p'))], contracts=H, kinds=kinds)
    for ns in (1, 2, 3, 4):
        H2 = dict(mat.handlers(scale(ns, n))); H2['flags_or'] = H['flags_or']
        DD = app('mirror', (), 'd')        # the diagonal of the mirror matrix: +1 for I and Q, -1 for U and V
        def mulD(ex, g, a, I_, ns=ns):
            from vf import ir
            if a[0] is not n or a[1] is not ic(ns): raise Unsupported('mirror product of other dimensions')
            ex.store(a[3], ir.DBL, mm(diag(DD), ex.load(a[2], ir.DBL, g)), g, I_); return UNDEF['d']
        H2['dmat_mul_D_A'] = mulD
        Dm = (lambda x: mm(diag(DD), x)) if ns > 2 else (lambda x: x)
        ens = []
        for o, s in (('tpr', 1), ('tmr', -1)):
            c = lambda x, y, s=s, Dm=Dm: dadd(x, Dm(y)) if s > 0 else dsub(x, Dm(y))
            ens += [(o, 1, lambda S, i, c=c: (eq(i, ZERO), c(S.v('t_p', 0), S.v('r_p', 0)))), (o + '_l', 2, lambda S, k, i, c=c: (and_(act(S, k), eq(i, ZERO)), c(S.v('t_p_l', k, 0), S.v('r_p_l', k, 0))))]
        K('txr %d' % ns, [UT], 'build_txr', [I('n_quad'), Other('n_stokes', lambda S, ns=ns: ic(ns)), nd, M('r_p'), M('t_p'), M('tpr'), M('tmr'), ML('r_p_l'), ML('t_p_l'), ML('tpr_l'), ML('tmr_l'), der, W], ens, contracts=H2, kinds=dict(kinds, mirror='V'))
    K('gamma', [UT], 'build_gamma', [I('n_quad'), nd, M('tpr'), M('tmr'), M('gamma'), ML('tpr_l'), ML('tmr_l'), ML('gamma_l'), der, W],
      [('gamma', 1, lambda S, i: (eq(i, ZERO), mm(S.v('tmr', 0), S.v('tpr', 0)))), ('gamma_l', 2, lambda S, k, i: (andl([act(S, k), not_(eq0(OR)), eq(i, ZERO)]), dadd(mm(S.v('tmr_l', k, 0), S.v('tpr', 0)), mm(S.v('tmr', 0), S.v('tpr_l', k, 0)))))], contracts=H, kinds=kinds)
    def one_(c, j):
        j[2].note = j[0]; c.check(j[2], mods=c.load(*j[1]))
    ctx.par(jobs, one_)
    mat.assumptions(ctx)
    ctx.run_native('build_phase_vecs_vector_gc, build_phase_mats_vector_gc: the azimuth components sum to the rotated scattering matrix', 'replay/C25.c: 24 random expansions of up to 9 terms for each number of Stokes parameters, up to 3 x 3 directions, all hemispheres, random azimuths, against the closed forms')
