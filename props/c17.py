"""C17: surface kernels: the derivative returned is the derivative of the value returned; angle tables."""
from vf.contract import *
from vf.terms import *
import os
from vf import solve, build, mat, externs, prove
from vf.sym import Unsupported, Fam
from vf.structs import Struct
FLOOR = 100
NAME = 'kernels'
U = 'src/xrtm_brdf.c'
from vf.ir import Ty
DBLT, INT, U8T, PTRT = Ty('double'), Ty('i', 32), Ty('i', 8), Ty('ptr')
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
KERNELS = ['LAMBERTIAN', 'DIRECT_AND_DIFFUSE', 'ROUJEAN', 'LI_SPARSE', 'LI_DENSE', 'ROSS_THIN', 'ROSS_THICK', 'HAPKE', 'RAHMAN', 'COX_MUNK']
PMAX = 4
OR = app('flags_or', (), 'i', (0, 1))        # summary of the activity row: proved in C07 to be 1 when any entry is set
def flags_or(ex, g, a, inst): return OR
def auxstruct(S):
    st = Struct('aux', 'brdf_aux_data'); S.aux = st; return st.base
PI = dc(Fraction(3.14159265358979323846))
def formula(name, geom, C, p, phi):
    """published value of a kernel; C(column, direction or None for the azimuth)"""
    def M(*x):
        r = D1
        for y in x: r = dmul(r, y)
        return r
    def A(*x):
        r = D0
        for y in x: r = dadd(r, y)
        return r
    k = lambda x: dc(Fraction(x)); sq = lambda x: dfn('sqrt', x)
    c, s_, t, t2 = ([C(f, 0), C(f, 1)] for f in ('cos_theta', 'sin_theta', 'tan_theta', 'tan_theta2'))
    cp, sp = C('cos_phi', None), C('sin_phi', None)
    cx = A(M(c[0], c[1]), M(s_[0], s_[1], cp)); xi = dfn('acos', cx)
    gap = sq(dsub(A(t2[0], t2[1]), M(k(2), t[0], t[1], cp)))              # distance of the two directions in the tangent plane
    if name == 'LAMBERTIAN': return D1
    if name == 'DIRECT_AND_DIFFUSE': return p[{'QQ': 3, 'Q0': 1, 'UQ': 2, 'U0': 0}[geom]]
    if name == 'ROUJEAN':
        aphi = ite(dlt(phi, D0), dneg(phi), phi)
        return dsub(ddiv(M(A(M(dsub(PI, aphi), cp), sp), t[0], t[1]), M(k(2), PI)), ddiv(A(t[0], t[1], gap), PI))
    if name.startswith('ROSS'):
        n = A(M(dsub(ddiv(PI, k(2)), xi), cx), dfn('sin', xi))
        return dsub(ddiv(n, M(c[0], c[1])), ddiv(PI, k(2))) if name == 'ROSS_THIN' else dsub(ddiv(n, A(c[0], c[1])), ddiv(PI, k(4)))
    if name == 'HAPKE':
        H = lambda m: ddiv(A(D1, M(k(2), m)), A(D1, M(k(2), m, sq(dsub(D1, p[0])))))
        B = ddiv(M(p[1], p[2]), A(p[2], dfn('tan', ddiv(xi, k(2)))))
        return M(ddiv(p[0], M(A(c[0], c[1]), k(4))), dsub(A(M(A(D1, B), A(D1, M(k(Fraction(1, 2)), cx))), M(H(c[0]), H(c[1]))), D1))
    if name == 'RAHMAN':
        g = M(p[1], p[1]); a = A(D1, g, M(k(2), p[1], cx))
        P = ddiv(dsub(D1, g), dfn('pow', a, k(Fraction(3, 2)))); R = ddiv(dsub(D1, p[0]), A(D1, gap))
        return M(p[0], P, A(D1, R), dfn('pow', M(c[0], c[1], A(c[0], c[1])), dsub(p[2], D1)))
    if name == 'COX_MUNK':
        l = dfn('cos', ddiv(xi, k(2))); q = sq(A(p[1], dsub(M(l, l), D1)))
        rp, rm = ddiv(dsub(M(p[1], l), q), A(M(p[1], l), q)), ddiv(dsub(l, q), A(l, q)); R = ddiv(A(M(rp, rp), M(rm, rm)), k(2))
        g = ddiv(ddiv(A(c[0], c[1]), k(2)), l); tau = dfn('tan', dsub(ddiv(PI, k(2)), dfn('asin', g)))
        return M(R, ddiv(D1, M(k(4), c[0], c[1], PI, p[0], g, g, g, g)), dfn('exp', ddiv(dneg(M(tau, tau)), p[0])))
def run(ctx):
    jobs = []
    common = lambda: [Int('n_derivs', 0, 1000000), Arr('derivs', 'uc', 'n_derivs'), Arr('p', 'd', PMAX), Arr('p_l', 'd', 'n_derivs', PMAX)]
    def kernel(name, geom):
        kt = build.consts('XRTM_KERNEL_' + name); gm = build.consts('XRTM_BRDF_GEOMETRY_' + geom)
        def aux2(S):
            f = Fam('aux2'); f.S = 1 << 20; f.ctype = lambda r: r; S.aux2 = f; return ptr(f)
        fn = Other('func', lambda S: NULL)
        pars = [Other('aux', auxstruct), Other('aux2', aux2), Other('brdf_geom', lambda S: ic(gm)), Other('kernel', lambda S: ic(kt)), Int('i', 0, 1000), Int('j', 0, 1000), Int('k', 0, 1000), Dbl('phi')] + common() + [fn, Arr('f_l', 'd', 'n_derivs')]
        def setup(S):
            F = S.ex.funcs['call_aux_func']
            a = dict(S.a); args = [a[x] for x in ('aux', 'aux2', 'kernel', 'i', 'j', 'n_derivs', 'derivs', 'p', 'p_l', 'func')]
            S.ex.facts = list(S.facts); S.ex.solver = solve.make_solver(S.facts)
            S.ex.exec_function(F, args, TRUE)
        def dom(S):          # where the value is differentiable: its square roots are positive
            r = TRUE
            for x in solve.all_fns(S.rv):
                if x.a[0] == 'sqrt': r = and_(r, dlt(D0, x))
            return r
        def act(S, k): return andl([inb(k, S.a['n_derivs']), not_(eq0(S.v('derivs', k))), not_(eq0(OR))])
        def fl(S, k):
            P = [S.v('p', m) for m in range(PMAX)]
            d = solve.diff(S.rv, lambda x: next((S.v('p_l', k, m) for m in range(PMAX) if x is P[m]), None))
            return and_(act(S, k), dom(S)), d
        def any_(S, k): return and_(act(S, k), not_(dom(S))), S.out('f_l', k)
        def azimuth(ctx_, S, rv, pre, smp):      # a kernel said not to need the azimuth expansion does not depend on the azimuth
            f = Fam('list'); f.S = 4; S.ex.store(ptr(f), INT, ic(kt), TRUE)
            r = S.ex.exec_function(S.ex.funcs['brdf_needs_fourier'], [ptr(f), ONE], TRUE); r = r[0] if isinstance(r, tuple) else r
            k2, p2 = ivar('k2', 0, 1000), dvar('phi2')
            if r.op != 'c': raise Unsupported('kernel_needs_fourier is not a constant table')
            if not name.startswith('LI_'):
                ij = [S.a['i'], S.a['j']]
                C = lambda f, d: S.aux.get(S.ex, f, S.a['k'] if d is None else ij[d], time=S.t0)
                yield 'value', prove.prove_eq(rv, formula(name, geom, C, [S.v('p', m) for m in range(PMAX)], S.a['phi']), pre, S.facts, sampler=smp)
            if r is ZERO: yield 'value does not depend on the azimuth', prove.prove_eq(rv, subst(rv, {S.a['k']: k2, S.a['phi']: p2}), pre, S.facts, sampler=smp)
        return Contract('call_kernel_func', pars, [('f_l', 1, fl), ('f_l', 1, any_)], extra=azimuth, setup=setup, real_ranges={'aux': (Fraction(1, 10), Fraction(1, 2)), 'p': (Fraction(1, 10), Fraction(9, 10))}, contracts={'flags_or': flags_or}, replay=False)
    for n in KERNELS:
        for g in (['QQ', 'Q0', 'UQ', 'U0'] if n == 'DIRECT_AND_DIFFUSE' else ['QQ']): jobs.append((n + ' ' + g, kernel(n, g)))
    # ---- angle tables
    COLS = ['cos_theta', 'sin_theta', 'tan_theta', 'tan_theta2', 'cos_phi', 'sin_phi', 'sin_phi2']
    def tables(fn, lo, hi, mu, phi):
        """fn fills the columns of the directions lo(S) <= i < hi(S) from mu(S, i), and of the azimuths when phi is set; nothing else"""
        def ex(ctx_, S, rv, pre, smp):
            i = ivar('ix:q')
            for f in COLS:
                az = f.endswith('phi') or f.endswith('phi2')
                if az and not phi: c, v = FALSE, None
                elif az:
                    a = S.v('kernel_qx', i); sn = dfn('sin', a)
                    c = inb(i, S.a['n_kernel_quad']); v = {'cos_phi': dfn('cos', a), 'sin_phi': sn, 'sin_phi2': dmul(sn, sn)}[f]
                else:
                    m = mu(S, i); sn = dfn('sqrt', dsub(D1, dmul(m, m))); tn = ddiv(sn, m)
                    c = and_(le(lo(S), i), lt(i, hi(S))); v = {'cos_theta': m, 'sin_theta': sn, 'tan_theta': tn, 'tan_theta2': dmul(tn, tn)}[f]
                now = lambda g: S.aux.get(S.ex, f, i, g=g)
                if c is not FALSE: yield f, prove.prove_eq(now(and_(pre, c)), v, and_(pre, c), S.facts, sampler=smp)
                r = and_(pre, not_(c)); yield 'frame of ' + f, prove.prove_eq(now(r), S.aux.get(S.ex, f, i, time=S.t0, g=r), r, S.facts, sampler=smp)
        pars = [Other('aux', auxstruct)] + ([Int('i_quad', 0, 100000)] if fn.endswith('part') else []) + [Int('n_quad', 0, 100000)] + ([Dbl('mu_0')] if fn.endswith('mu_0') else [Arr('qx', 'd', 'n_quad')]) + [Int('n_kernel_quad', 0, 100000), Arr('kernel_qx', 'd', 'n_kernel_quad')]
        return Contract(fn, pars, [], extra=ex, replay=False)
    jobs.append(('base', tables('brdf_aux_calc_base', lambda S: ZERO, lambda S: S.a['n_quad'], lambda S, i: S.v('qx', i), True)))
    jobs.append(('part', tables('brdf_aux_calc_part', lambda S: S.a['i_quad'], lambda S: S.a['n_quad'], lambda S, i: S.v('qx', i), False)))
    jobs.append(('mu_0', tables('brdf_aux_calc_mu_0', lambda S: S.a['n_quad'], lambda S: add(S.a['n_quad'], ONE), lambda S, i: S.a['mu_0'], False)))
    # ---- azimuth expansion of the kernel sums
    def fourier(S, f, i, *jx):
        """half the weighted cosine sum over the positive and negative azimuths"""
        n = S.a['n_kernel_quad']; q = bound_var(); m = i2d(S.a['i_four'])
        return dsum(q, n, dmul(dadd(S.v(f, add(q, ONE), i, *jx), S.v(f, add(add(q, ONE), n), i, *jx)), ddiv(dmul(S.v('kernel_qw', q), dfn('cos', dmul(m, S.v('kernel_qx', q)))), dc(2))))
    def needs(ex, g, a, inst): return app('needs_fourier', (), 'i', (0, 1))
    NF = app('needs_fourier', (), 'i', (0, 1))
    W = Other('work', mat.workstruct)
    def blk(ns, x):          # position x is the intensity element of block q
        q = tdiv(x, ic(ns)) if ns > 1 else x
        return q, eq(scale(ns, q), x)
    def vec(ns, part):
        def f(S, x):
            i, c = blk(ns, x); z = eq(S.a['i_four'], ZERO); two = ite(z, D1, dc(2)); inn = inb(x, scale(ns, S.a['n_quad']))
            if part: return and_(inn, not_(c)), D0
            base = S.v('kernel_f', 0, i)
            v = ite(eq0(NF), base, dadd(ite(z, base, D0), fourier(S, 'kernel_f', i)))
            return and_(inn, c), dmul(v, two)
        return ('R_s', 1, f)
    H = dict(mat.handlers(ivar('n_quad'))); H = {k: v for k, v in H.items() if k.startswith('get_work')}; H['brdf_needs_fourier'] = needs; H['get_work_d1'] = lambda ex, g, a, I: externs.alloc(ex, g, scale(8, a[1]), I)
    hd = [Int('i_four', 0, 1000), Int('i_offset', 0, 1000)]
    def kq(dim): return [Int('n_kernels', 0, 100), Int('n_kernel_quad', 0, 100000), Arr('kernels', 'i', 'n_kernels'), Arr('kernel_qx', 'd', 'n_kernel_quad'), Arr('kernel_qw', 'd', 'n_kernel_quad')]
    KF = lambda S: add(scale(2, S.a['n_kernel_quad']), ONE)
    def matc(ns, part):
        def f(S, x, y):
            i, ci = blk(ns, x); j, cj = blk(ns, y); c = and_(ci, cj); inn = and_(inb(x, scale(ns, S.a['n_quad1'])), inb(y, scale(ns, S.a['n_quad2'])))
            if part: return and_(inn, not_(c)), D0
            z = eq(S.a['i_four'], ZERO); base = S.v('kernel_f', 0, i, j); jj = add(scale(ns, S.a['j_offset']), y)
            v = ite(eq0(NF), base, dadd(ite(z, base, D0), fourier(S, 'kernel_f', i, j)))
            w = dmul(dmul(dmul(dc(2), S.a['qf']), S.v('qx_v', jj)), S.v('qw_v', jj))
            return and_(inn, c), dmul(v, w)
        return ('R_s', 2, f)
    for ns in (1, 2, 3, 4):
        st = Other('n_stokes', lambda S, ns=ns: ic(ns)); D = lambda f, ns=ns: lambda S: scale(ns, S.a[f]); NQ = lambda S, ns=ns: scale(ns, add(S.a['j_offset'], S.a['n_quad2'])); parts = [0, 1] if ns > 1 else [0]
        jobs.append(('ref_vec %d' % ns, Contract('brdf_build_ref_vec', hd + [Int('n_quad', 0, 100000), Int('j_offset', 0, 1000), st, Dbl('qf'), Arr('qx_v', 'd', D('n_quad')), Arr('qw_v', 'd', D('n_quad'))] + kq(0)
            + [Arr('kernel_f', 'd', KF, 'n_quad'), Arr('R_s', 'd', D('n_quad')), W], [vec(ns, k) for k in parts], contracts=H, replay=False)))
        jobs.append(('ref_mat %d' % ns, Contract('brdf_build_ref_mat', hd + [Int('n_quad1', 0, 100000), Int('j_offset', 0, 1000), Int('n_quad2', 0, 100000), st, Dbl('qf'), Arr('qx_v', 'd', NQ), Arr('qw_v', 'd', NQ)] + kq(0)
            + [Arr('kernel_f', 'd', KF, 'n_quad1', 'n_quad2'), Arr('R_s', 'd', D('n_quad1'), D('n_quad2'), contig=True), W], [matc(ns, k) for k in parts], contracts=H, replay=False)))
    # ---- kernel sums over the kernels of the surface, for one direction and for a grid of directions
    def nf(x): return app('nf', (x,), 'i', (0, 1))
    def h_needs(ex, g, a, I): return nf(ex.load(a[0], INT, g))
    AUXP = 0
    def h_aux(ex, g, a, I):         # call_aux_func: what it leaves in aux2 depends on the kernel, the directions and the parameters
        ex.store(a[1], DBLT, app('AUX', (a[2], a[3], a[4], ex.load(a[7], DBLT, g)), 'd'), g, I); return UNDEF['d']
    def h_kern(ex, g, a, I):        # call_kernel_func: (aux, aux2, geom, kernel, i, j, k, phi, n_derivs, derivs, p, p_l, func, f_l)
        c = under(eq0(nf(a[3])), g); st = D0 if c is TRUE else ite(c, D0, ex.load(a[1], DBLT, and_(g, not_(c))))
        key = (a[2], a[3], a[4], a[5], a[6]); p0 = ex.load(a[10], DBLT, g)
        f = app('K', key + (a[7], p0, st), 'd')
        k = bound_var(); gd = andl([g, not_(eq0(OR)), inb(k, a[8])])
        gd = and_(gd, not_(eq0(ex.load(ex.padd(a[9], k), U8T, gd))))
        if gd is not FALSE:
            pl = ex.load(ex.load(ex.padd(ite_under(a[11], gd), scale(8, k)), PTRT, gd), DBLT, gd)
            mat.qstore(ex, ite_under(a[13], gd), k, app('KL', key + (k, a[7], p0, pl, st), 'd'), gd, I)
        return f
    def kspec(S, i, jj, ii, k, phi, l=None, az=False):
        ke = S.v('kernels', i); p0 = S.v('params', i, 0)
        st = app('AUX', (ke, jj, ii, p0), 'd') if az else D0; key = (S.a['brdf_geom'], ke, jj, ii, k)
        f = app('K', key + (phi, p0, st), 'd')
        if l is None: return f, None
        return f, app('KL', key + (l, phi, p0, S.v('params_l', i, l, 0), st), 'd')
    def ksum(S, row, k, jj, ii, l=None):
        """row 0 of the kernel table sums the kernels without azimuth dependence, row 1+k (1+n+k) the others at plus (minus) azimuth k"""
        q = bound_var(); ke = S.v('kernels', q)
        phi = D0 if row == 0 else S.v('kernel_qx', k)
        if row == 2: phi = dneg(phi)
        f, fl = kspec(S, q, jj, ii, k, phi, l, row > 0); a = S.v('ampfac', q); z = eq0(nf(ke))
        t = dmul(f, a) if l is None else dadd(dmul(fl, a), dmul(f, S.v('ampfac_l', q, l)))
        return dsum(q, S.a['n_kernels'], ite(z if row == 0 else not_(z), t, D0))
    def h_w1(ex, g, a, I):
        p = externs.alloc(ex, g, scale(8, ivar('nd_max')), I); p.a[0].scratch = True; return p
    KW = dict(H); KW.update({'brdf_needs_fourier': h_needs, 'call_aux_func': h_aux, 'call_kernel_func': h_kern, 'flags_or': flags_or, 'work_get1': h_w1})
    def kpars(lists, dims):
        return lists + [Int('n_stokes', 1, 4), Int('n_derivs', 0, 100000), Int('n_kernels', 0, 100), Int('n_kernel_quad', 0, 100000), Arr('kernels', 'i', 'n_kernels'), Arr('ampfac', 'd', 'n_kernels'), Arr('ampfac_l', 'd', 'n_kernels', 'n_derivs'),
            Arr('params', 'd', 'n_kernels', PMAX), Arr('params_l', 'd', 'n_kernels', 'n_derivs', PMAX), Other('func', lambda S: ptr(Fam('func'))), Arr('kernel_qx', 'd', 'n_kernel_quad'), Arr('kernel_qw', 'd', 'n_kernel_quad'), Other('aux', auxstruct), Int('brdf_geom', 0, 3),
            Arr('kernel_f', 'd', KF, *dims), Arr('kernel_f_l', 'd', 'n_derivs', KF, *dims), Arr('derivs', 'uc', 'n_derivs'), W]
    act = lambda S, l: andl([inb(l, S.a['n_derivs']), not_(eq0(S.v('derivs', l))), not_(eq0(OR))])
    inm = lambda S, m: inb(m, KF(S))
    def rows(S, m): return [(eq(m, ZERO), ZERO), (and_(le(ONE, m), le(m, S.a['n_kernel_quad'])), sub(m, ONE)), (and_(lt(S.a['n_kernel_quad'], m), lt(m, KF(S))), sub(m, add(S.a['n_kernel_quad'], ONE)))]
    def kern(fn, pars, dims, dirs, inside):
        ens = []
        for row in range(3):
            def v(S, m, *ix, row=row): c, k = rows(S, m)[row]; return and_(c, inside(S, *ix)), ksum(S, row, k, *dirs(S, *ix))
            def vl(S, l, m, *ix, row=row): c, k = rows(S, m)[row]; return andl([act(S, l), c, inside(S, *ix)]), ksum(S, row, k, *dirs(S, *ix), l)
            ens += [('kernel_f', 1 + len(dims), v), ('kernel_f_l', 2 + len(dims), vl)]
        jobs.append((fn[11:], Contract(fn, kpars(pars, dims), ens, contracts=KW, replay=False)))
    kern('brdf_build_kernel_vecs', [Int('i_offset', 0, 1000), Int('n_quad', 0, 100000), Int('j_offset', 0, 1000)], ['n_quad'], lambda S, i: (S.a['j_offset'], add(S.a['i_offset'], i)), lambda S, i: inb(i, S.a['n_quad']))
    kern('brdf_build_kernel_mats', [Int('i_offset', 0, 1000), Int('n_quad1', 0, 100000), Int('j_offset', 0, 1000), Int('n_quad2', 0, 100000)], ['n_quad1', 'n_quad2'], lambda S, i, j: (add(S.a['j_offset'], j), add(S.a['i_offset'], i)), lambda S, i, j: and_(inb(i, S.a['n_quad1']), inb(j, S.a['n_quad2'])))
    mods = ctx.load(U, 'misc/gutil_alloc.c', 'misc/gmath_matrix.c', 'misc/gmath_vector.c')
    def one(c, k):
        k[1].note = k[0]; c.check(k[1], mods=mods)
    ctx.par(jobs, one)
