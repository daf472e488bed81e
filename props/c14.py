"""C14: delta-M truncation scaling and TMS scaling, values and exact derivatives."""
from vf.contract import *
from vf.terms import *
from vf import solve, prove, structs
FLOOR = 20
NAME = 'delta-M'
U = 'src/xrtm_utility.c'
def inb(i, n): return and_(le(ZERO, i), lt(i, n if isinstance(n, T) else ic(n)))
RR = {k: (0.1, 0.7) for k in ('f', 'omega', 'omega0', 'g', 'f_l', 'omega_l', 'g_l')}
SH = [dict(n_derivs=d, n_coef=c) for d, c in ((0, 2), (1, 3), (3, 1), (2, 4))]
SHD = [dict(n_derivs=d) for d in (0, 1, 3)]
GC = 0
def seeds(S, **kw):
    """tangent seeds: atom of scalar parameter x -> x_l[k]"""
    def seed(t):
        if t.op == 'v': return kw[t.a[0]] if t.a[0] in kw else D0
        return None
    return seed
def dual(S, val, **kw): return solve.diff(val, seeds(S, **kw))

def g_val(S): return ddiv(dsub(S.v('g'), S.v('f')), dsub(D1, S.v('f')))
def om_val(S): return ddiv(dmul(dsub(D1, S.v('f')), S.v('omega')), dsub(D1, dmul(S.v('omega'), S.v('f'))))
def lt_val(S): return dmul(dsub(D1, dmul(S.v('omega'), S.v('f'))), S.v('ltau'))

def scal(fn, val, has_val, has_l, p, tangents, derivs=True):
    """contract of a scalar scaling function"""
    ens = []
    if has_val: ens.append((p + '_prime', 1, lambda S, i: (eq(i, ZERO), val(S))))
    if has_l:
        def e(S, i):
            c = inb(i, S.a['n_derivs'])
            if derivs: c = and_(c, not_(eq0(S.a['derivs'])))
            return c, dual(S, val(S), **{x: S.v(x + '_l', i) for x in tangents})
        ens.append((p + '_prime_l', 1, e))
    return ens

def coef_elem(S, row, j, c, f):
    """scaled expansion coefficient of element `row` (a term), index j"""
    a = dsub(D1, f); b = dmul(i2d(add(scale(2, j), ONE)), f)
    first4 = ddiv(dsub(c, b), a)
    last2 = ite(eq(S.a['coef_type'], ic(S.gc)), ddiv(c, a), c)
    return ite(lt(row, ic(4)), first4, last2)
def rows(S, i): return or_(eq(i, ZERO), and_(not_(eq0(S.a['allsix'])), inb(i, 6)))
def e_coef(S, i, j):
    return and_(rows(S, i), inb(j, S.a['n_coef'])), coef_elem(S, i, j, S.v('coef', i, j), S.v('f'))
def e_coef_l(derivs):
    def e(S, k, i, j):
        c = and_(inb(k, S.a['n_derivs']), and_(rows(S, i), inb(j, S.a['n_coef'])))
        if derivs: c = and_(c, not_(eq0(S.a['derivs'])))
        C = dvar('C!'); F = dvar('F!')
        d = solve.diff(coef_elem(S, i, j, C, F), lambda t: {C: S.v('coef_l', k, i, j), F: S.v('f_l', k)}.get(t, D0))
        return c, subst(d, {C: S.v('coef', i, j), F: S.v('f')})
    return e
def gc_setup(ctx):
    from vf import build
    return build.consts('SCAT_COEF_GC', 'SCAT_COEF_LC')

def contracts(gc, lc):
    def setup(S): S.gc = gc
    def req(S): return [or_(eq(S.a['coef_type'], ic(gc)), eq(S.a['coef_type'], ic(lc)))]
    nd = Int('n_derivs', 0, 1000000, small=(0, 3)); nc = Int('n_coef', 0, 1000000, small=(0, 3))
    D = 'n_derivs'
    o = lambda n: Arr(n, 'd', 1)
    fl = Arr('f_l', 'd', D)
    yes = Int('derivs', small=(0, 2))
    mats = lambda n: Arr(n, 'd', 6, 'n_coef'); mats3 = lambda n: Arr(n, 'd', D, 6, 'n_coef')
    K = lambda *a, **k: Contract(*a, real_ranges=RR, setup=setup, **k)
    out = []
    out.append(K('delta_m_g', [nd, Dbl('f'), fl, Dbl('g'), o('g_prime'), Arr('g_l', 'd', D), Arr('g_prime_l', 'd', D), yes], scal('g', g_val, 1, 1, 'g', ('f', 'g')), shapes=SHD))
    out.append(K('delta_m_g_l', [nd, Dbl('f'), fl, Dbl('g'), Arr('g_l', 'd', D), Arr('g_prime_l', 'd', D)], scal('g', g_val, 0, 1, 'g', ('f', 'g'), False), shapes=SHD))
    six = Int('allsix', small=(0, 1)); ct = Int('coef_type', min(gc, lc), max(gc, lc))
    out.append(K('delta_m_coef', [nc, nd, Dbl('f'), fl, mats('coef'), mats('coef_prime'), mats3('coef_l'), mats3('coef_prime_l'), six, ct, yes],
                 [('coef_prime', 2, e_coef), ('coef_prime_l', 3, e_coef_l(True))], requires=req, shapes=SH))
    out.append(K('delta_m_coef_l', [nc, nd, Dbl('f'), fl, mats('coef'), mats3('coef_l'), mats3('coef_prime_l'), six, ct],
                 [('coef_prime_l', 3, e_coef_l(False))], requires=req, shapes=SH))
    out.append(K('delta_m_omega', [nd, Dbl('f'), fl, Dbl('omega'), o('omega_prime'), Arr('omega_l', 'd', D), Arr('omega_prime_l', 'd', D), yes], scal('o', om_val, 1, 1, 'omega', ('f', 'omega')), shapes=SHD))
    out.append(K('delta_m_omega_l', [nd, Dbl('f'), fl, Dbl('omega'), Arr('omega_l', 'd', D), Arr('omega_prime_l', 'd', D)], scal('o', om_val, 0, 1, 'omega', ('f', 'omega'), False), shapes=SHD))
    ol = Arr('omega_l', 'd', D); tl = Arr('ltau_l', 'd', D)
    T3 = ('f', 'omega', 'ltau')
    out.append(K('delta_m_ltau', [nd, Dbl('f'), fl, Dbl('omega'), ol, Dbl('ltau'), o('ltau_prime'), tl, Arr('ltau_prime_l', 'd', D), yes], scal('t', lt_val, 1, 1, 'ltau', T3), shapes=SHD))
    out.append(K('delta_m_ltau_l', [nd, Dbl('f'), fl, Dbl('omega'), ol, Dbl('ltau'), tl, Arr('ltau_prime_l', 'd', D)], scal('t', lt_val, 0, 1, 'ltau', T3, False), shapes=SHD))
    full = [nc, nd, Dbl('f'), fl, mats('coef'), mats('coef_prime'), Dbl('omega'), o('omega_prime'), Dbl('ltau'), o('ltau_prime'), mats3('coef_l'), mats3('coef_prime_l'),
            ol, Arr('omega_prime_l', 'd', D), tl, Arr('ltau_prime_l', 'd', D), six, ct, yes]
    out.append(K('delta_m', full, [('coef_prime', 2, e_coef), ('coef_prime_l', 3, e_coef_l(True))] + scal('o', om_val, 1, 1, 'omega', ('f', 'omega')) + scal('t', lt_val, 1, 1, 'ltau', T3), requires=req, shapes=SH))
    out.append(K('delta_m_l', [nc, nd, Dbl('f'), fl, mats('coef'), Dbl('omega'), Dbl('ltau'), mats3('coef_l'), mats3('coef_prime_l'), ol, Arr('omega_prime_l', 'd', D), tl, Arr('ltau_prime_l', 'd', D), six, ct],
                 [('coef_prime_l', 3, e_coef_l(False))] + scal('o', om_val, 0, 1, 'omega', ('f', 'omega'), False) + scal('t', lt_val, 0, 1, 'ltau', T3, False), requires=req, shapes=SH))
    tms = lambda S: ddiv(S.v('omega0'), dsub(D1, dmul(S.v('f'), S.v('omega0'))))
    out.append(K('n_t_tms_scaling', [nd, Dbl('f'), fl, Dbl('omega0'), o('omega_tms'), Arr('omega0_l', 'd', D), Arr('omega_tms_l', 'd', D)],
                 [('omega_tms', 1, lambda S, i: (eq(i, ZERO), tms(S))),
                  ('omega_tms_l', 1, lambda S, i: (inb(i, S.a['n_derivs']), dual(S, tms(S), f=S.v('f_l', i), omega0=S.v('omega0_l', i))))], shapes=SHD))
    return out

def run(ctx):
    gc, lc = gc_setup(ctx)
    for C in contracts(gc, lc): ctx.check(C, U)
