"""Contracts of the set and get functions of the programming interface (shared by C01, C02 and C06)."""
from vf.iface import *
from vf.handle import K, NPARAMS
from vf.terms import *
import math
D2R = dc(Fraction(math.pi/180.)); R2D = dc(Fraction(180./math.pi))
def inb(i, n): return and_(le(ZERO, i), lt(i, n))
def ge0(x): return not_(dlt(x, D0))
def gt0(x): return dlt(D0, x)
def le1(x): return not_(dlt(D1, x))
def all_(n, f):
    k = bound_var(); return forall(k, n, f(k))
L = lambda S: S.f('n_layers')
N = lambda S: S.f('n_ulevels')
Dn = lambda S: S.f('n_derivs')
L1 = lambda S: add(S.f('n_layers'), ONE)
U = lambda S: S.f('n_umus')
E = lambda S: S.f('n_elem')
KER = lambda S: lt(ZERO, S.f('n_kernels'))
init = lambda S: not_(eq0(S.f('inputs_initialized')))
CALC = lambda S: S.opt('CALC_DERIVS')
TH = lambda S: S.opt('SOURCE_THERMAL')
PSA = lambda S: S.opt('PSA')
SOLAR = lambda S: S.opt('SOURCE_SOLAR')
def flag(S, *f): return or_(not_(init(S)), not_(eq0(S.f(*f))))     # may be read: set, or the gate was passed
def one(fn, n=0): return (fn, n, lambda S: (TRUE, ONE))
def scalar(field, arg): return (field, 0, lambda S: (TRUE, S.a[arg]))
def npar(k):
    r = ZERO
    for i, n in enumerate(NPARAMS):
        if n: r = ite(eq(k, ic(i)), ic(n), r)
    return r
def np_(S): return npar(S.f('kernels', S.a['i_kernel']))
A = []
def api(*a, **k): A.append(Api(*a, **k))
def dep(*names): return [(names, None)]

# ---------------------------------------------------------------- scalars
def scalar_pair(nm, field, dom=None, need=None, need_get=None, deps=None, flagf=None, arg=None, getneed=True):
    arg = arg or nm; flagf = flagf or 'set_flags_' + field
    oks = lambda S: and_(need(S) if need else TRUE, dom(S.a[arg]) if dom else TRUE)
    ng = need_get or need
    api('xrtm_set_' + nm, [Dbl(arg)], oks, [scalar(field, arg), one(flagf)], deps=deps)
    api('xrtm_get_' + nm, [], lambda S: and_(ng(S) if ng else TRUE, flag(S, flagf)), value=lambda S: S.f(field), err='d')
scalar_pair('doub_d_tau', 'doub_d_tau', gt0, need_get=lambda S: S.sol('DOUBLING'), deps=dep('DOUB_D_TAU'))
scalar_pair('fourier_tol', 'fourier_tol', ge0)
scalar_pair('lambda', 'lambda', gt0, TH, deps=dep('LAMBDA'))
scalar_pair('planet_r', 'planet_r', gt0, PSA, deps=dep('PLANET_R'))
scalar_pair('F_iso_top', 'F_iso_top', ge0, deps=dep('F_ISO_TOP'))
scalar_pair('F_iso_bot', 'F_iso_bot', ge0, deps=dep('F_ISO_BOT'))
scalar_pair('F_0', 'F_0', ge0, SOLAR, deps=dep('F_0'))
scalar_pair('phi_0', 'phi_0', deps=dep('PHI_0'))
scalar_pair('surface_b', 'surface_b', ge0, TH, deps=dep('SURFACE_B'))
api('xrtm_set_pade_params', [Int('pade_s'), Int('pade_r')], None, [scalar('pade_s', 'pade_s'), scalar('pade_r', 'pade_r'), one('set_flags_pade_params')], deps=dep('PADE_PARAMS'))
api('xrtm_get_pade_params', [Arr('pade_s', 'i', 1), Arr('pade_r', 'i', 1)], lambda S: and_(S.sol('PADE_ADD'), flag(S, 'set_flags_pade_params')),
    outs=[(x, 1, lambda S, i, x=x: (eq0(i), S.f(x))) for x in ('pade_s', 'pade_r')])
api('xrtm_set_sos_params', [Int('sos_max_os'), Dbl('sos_max_tau'), Dbl('sos_tol')], lambda S: andl([lt(ZERO, S.a['sos_max_os']), gt0(S.a['sos_max_tau']), ge0(S.a['sos_tol'])]),
    [scalar(x, x) for x in ('sos_max_os', 'sos_max_tau', 'sos_tol')] + [one('set_flags_sos_params')])
api('xrtm_get_sos_params', [Arr('sos_max_os', 'i', 1), Arr('sos_max_tau', 'd', 1), Arr('sos_tol', 'd', 1)], lambda S: and_(S.sol('SOS'), flag(S, 'set_flags_sos_params')),
    outs=[(x, 1, lambda S, i, x=x: (eq0(i), S.f(x))) for x in ('sos_max_os', 'sos_max_tau', 'sos_tol')])
for g, f in (('options', 'options'), ('solvers', 'solvers'), ('max_coef', 'n_coef'), ('n_quad', 'n_quad'), ('n_stokes', 'n_stokes'), ('n_elem', 'n_elem'), ('n_derivs', 'n_derivs'), ('n_layers', 'n_layers'),
             ('n_kernels', 'n_kernels'), ('n_kernel_quad', 'n_kernel_quad'), ('n_out_levels', 'n_ulevels'), ('n_out_thetas', 'n_umus')):
    api('xrtm_get_' + g, [], value=lambda S, f=f: S.f(f))
api('xrtm_get_kernel', [Int('i_kernel')], lambda S: inb(S.a['i_kernel'], S.f('n_kernels')), value=lambda S: S.f('kernels', S.a['i_kernel']))

# ---------------------------------------------------------------- whole arrays
def vec_pair(nm, field, n, dom, need, deps, flagf=None, ty='d'):
    flagf = flagf or 'set_flags_' + field
    api('xrtm_set_' + nm, [Arr(nm, ty, n)], lambda S: and_(need(S), dom(S)), [(field, 1, lambda S, i: (inb(i, n(S)), S.v(nm, i))), one(flagf)], deps=deps)
    api('xrtm_get_' + nm, [Arr(nm, ty, n)], lambda S: and_(need(S), flag(S, flagf)), outs=[(nm, 1, lambda S, i: (inb(i, n(S)), S.f(field, i)))])
vec_pair('levels_z', 'levels_z', L1, lambda S: all_(L(S), lambda k: not_(dlt(S.v('levels_z', k), S.v('levels_z', add(k, ONE))))), PSA, dep('LEVELS_Z'))
def out_levels_dom(S):
    v = lambda i: S.v('out_levels', i); n = N(S)
    a = and_(le(ZERO, v(ZERO)), le(v(ZERO), L(S)))
    b = all_(sub(n, ONE), lambda k: and_(lt(v(k), v(add(k, ONE))), le(v(add(k, ONE)), L(S))))
    c = TRUE
    adding = orl(S.sol(x) for x in ('DOUB_ADD', 'EIG_ADD', 'PADE_ADD', 'SOS', 'TWO_OS'))
    for i in (0, 1): c = and_(c, implies(lt(ic(i), n), or_(not_(adding), or_(eq0(v(ic(i))), eq(v(ic(i)), L(S))))))
    return andl([a, b, c, implies(S.opt('TOP_DOWN_ADDING'), eq(v(ZERO), L(S))), implies(S.opt('BOTTOM_UP_ADDING'), eq0(v(ZERO)))])
vec_pair('out_levels', 'ulevels', N, out_levels_dom, lambda S: S.opt('OUTPUT_AT_LEVELS'), dep('ULEVELS'), ty='i')
vec_pair('out_taus', 'utaus', N, lambda S: all_(N(S), lambda k: ge0(S.v('out_taus', k))), lambda S: S.opt('OUTPUT_AT_TAUS'), dep('UTAUS'))
vec_pair('levels_b', 'levels_b', L1, lambda S: all_(L1(S), lambda k: ge0(S.v('levels_b', k))), TH, dep('LEVELS_B'))

# ---------------------------------------------------------------- angles
def angle(x): return and_(ge0(x), dlt(x, dc(90)))
def cosd(x): return dfn('cos', dmul(x, D2R))
api('xrtm_get_theta_0', [], lambda S: and_(SOLAR(S), flag(S, 'set_flags_mu_0')), value=lambda S: dmul(dfn('acos', S.f('mu_0_0')), R2D), err='d')
api('xrtm_get_out_thetas', [Arr('out_thetas', 'd', U)], lambda S: and_(lt(ZERO, U(S)), flag(S, 'set_flags_umus')),
    outs=[('out_thetas', 1, lambda S, i: (inb(i, U(S)), dmul(dfn('acos', S.f('qx', add(S.f('n_quad'), i))), R2D)))])

# ---------------------------------------------------------------- boundary derivatives
for nm in ('F_iso_top', 'F_iso_bot', 'surface_b'):
    need = TH if nm == 'surface_b' else (lambda S: TRUE)
    D = {'F_iso_top': 'F_ISO_TOP_L', 'F_iso_bot': 'F_ISO_BOT_L', 'surface_b': 'SURFACE_B_L'}[nm]; f = nm + '_l'
    api('xrtm_set_%s_l_1' % nm, [Int('i_deriv'), Dbl('x')], lambda S, need=need: andl([need(S), CALC(S), inb(S.a['i_deriv'], Dn(S))]), [(f, 1, lambda S, i: (eq(i, S.a['i_deriv']), S.a['x']))], deps=dep(D))
    api('xrtm_set_%s_l_n' % nm, [Arr('x', 'd', Dn)], lambda S, need=need: and_(need(S), CALC(S)), [(f, 1, lambda S, i: (inb(i, Dn(S)), S.v('x', i)))], deps=dep(D))
    api('xrtm_get_%s_l' % nm, [Int('i_deriv')], lambda S, need=need: and_(need(S), inb(S.a['i_deriv'], Dn(S))), value=lambda S, f=f: S.f(f, S.a['i_deriv']), err='d')
api('xrtm_set_levels_b_l_1', [Int('i_deriv'), Arr('x', 'd', L1)], lambda S: andl([TH(S), CALC(S), inb(S.a['i_deriv'], Dn(S))]),
    [('levels_b_l', 2, lambda S, i, j: (and_(inb(i, L1(S)), eq(j, S.a['i_deriv'])), S.v('x', i)))], deps=dep('LEVELS_B_L'))
api('xrtm_set_levels_b_l_n', [Arr('x', 'd', L1, Dn)], lambda S: and_(TH(S), CALC(S)),
    [('levels_b_l', 2, lambda S, i, j: (and_(inb(i, L1(S)), inb(j, Dn(S))), S.v('x', i, j)))], deps=dep('LEVELS_B_L'))
api('xrtm_get_levels_b_l', [Int('i_deriv'), Arr('x', 'd', L1)], lambda S: and_(TH(S), inb(S.a['i_deriv'], Dn(S))), value=lambda S: ic(0), err='i',
    outs=[('x', 1, lambda S, i: (inb(i, L1(S)), S.f('levels_b_l', i, S.a['i_deriv'])))])

# ---------------------------------------------------------------- layer inputs
DM = lambda S: and_(S.sol('INTERNAL'), S.opt('DELTA_M'))
def fl_layer(field): return lambda S, i, S2=None: ite(init(S), ONE, S.f(field, i))
def layer_value(nm, S, x):
    if nm != 'omega': return x
    thr = S.f('misc_input.threshold_omega_singlarity')
    return ite(dlt(dsub(D1, x), thr), dsub(D1, thr), x)
def layer_deps(nm, l):
    if not l:
        if nm == 'ltau': return [(('LTAU',), None)]
        g = [((nm.upper(),), None), (('LTAU',) + (('OMEGA',) if nm == 'coef' else ()), DM)]
        g.append((('OMEGA_L', 'LTAU_L') + (('COEF_L',) if nm == 'coef' else ()), lambda S: and_(DM(S), CALC(S))))
        return g
    if nm == 'ltau': return [(('LTAU_L',), None)]
    return [((nm.upper() + '_L',), None), (('LTAU_L',) + (('OMEGA_L',) if nm == 'coef' else ()), DM)]
for nm in ('omega', 'ltau'):
    dom = gt0 if nm == 'ltau' else (lambda x: and_(ge0(x), le1(x)))
    f0 = nm + '0'; fl = f0 + '_l'; sf = 'set_flags_' + nm
    api('xrtm_set_%s_1' % nm, [Int('i_layer'), Dbl('x')], lambda S, dom=dom: and_(inb(S.a['i_layer'], L(S)), dom(S.a['x'])),
        [(f0, 1, lambda S, i, nm=nm: (eq(i, S.a['i_layer']), layer_value(nm, S, S.a['x']))), (sf, 1, lambda S, i: (and_(init(S), eq(i, S.a['i_layer'])), ONE))],
        deps=layer_deps(nm, 0), lo=lambda S: S.a['i_layer'], hi=lambda S: add(S.a['i_layer'], ONE))
    api('xrtm_set_%s_n' % nm, [Arr('x', 'd', L)], lambda S, dom=dom: all_(L(S), lambda k: dom(S.v('x', k))),
        [(f0, 1, lambda S, i, nm=nm: (inb(i, L(S)), layer_value(nm, S, S.v('x', i)))), (sf, 1, lambda S, i: (and_(init(S), inb(i, L(S))), ONE))], deps=layer_deps(nm, 0))
    api('xrtm_get_%s' % nm, [Int('i_layer')], lambda S, sf=sf: and_(inb(S.a['i_layer'], L(S)), flag(S, sf, S.a['i_layer'])), value=lambda S, f0=f0: S.f(f0, S.a['i_layer']), err='d')
    api('xrtm_get_%s_l' % nm, [Int('i_layer'), Int('i_deriv')], lambda S: and_(inb(S.a['i_layer'], L(S)), inb(S.a['i_deriv'], Dn(S))), value=lambda S, fl=fl: S.f(fl, S.a['i_layer'], S.a['i_deriv']), err='d')
def l_forms(nm, base_dims, cells, need):
    """the four forms of a layer derivative input; cells(S): extra index condition"""
    fl = nm + '0_l'; nb = len(base_dims)
    il = lambda S: S.a['i_layer']; idv = lambda S: S.a['i_deriv']
    okl = lambda S: inb(il(S), L(S)); okd = lambda S: inb(idv(S), Dn(S)); some = lambda S: lt(ZERO, Dn(S))
    def ex(S, l, ix): return cells(S, l, *ix) if nb else TRUE
    val = lambda S, *ix: S.v('x', *ix)
    x11 = [Dbl('x')] if nb == 0 else [Arr('x', 'd', *base_dims)]
    v11 = (lambda S, ix: S.a['x']) if nb == 0 else (lambda S, ix: S.v('x', *ix))
    lo, hi = il, lambda S: add(il(S), ONE)
    api('xrtm_set_%s_l_11' % nm, [Int('i_layer'), Int('i_deriv')] + x11, lambda S: andl([CALC(S), need(S), okl(S), okd(S)]),
        [(fl, 2 + nb, lambda S, l, d, *ix: (andl([eq(l, il(S)), eq(d, idv(S)), ex(S, l, ix)]), v11(S, ix)))], deps=layer_deps(nm, 1), lo=lo, hi=hi)
    api('xrtm_set_%s_l_n1' % nm, [Int('i_deriv'), Arr('x', 'd', L, *base_dims)], lambda S: andl([CALC(S), need(S), okd(S)]),
        [(fl, 2 + nb, lambda S, l, d, *ix: (andl([inb(l, L(S)), eq(d, idv(S)), ex(S, l, ix)]), S.v('x', l, *ix)))], deps=layer_deps(nm, 1))
    api('xrtm_set_%s_l_1n' % nm, [Int('i_layer'), Arr('x', 'd', Dn, *base_dims)], lambda S: andl([CALC(S), need(S), okl(S), some(S)]),
        [(fl, 2 + nb, lambda S, l, d, *ix: (andl([eq(l, il(S)), inb(d, Dn(S)), ex(S, l, ix)]), S.v('x', d, *ix)))], deps=layer_deps(nm, 1), lo=lo, hi=hi)
    api('xrtm_set_%s_l_nn' % nm, [Arr('x', 'd', L, Dn, *base_dims)], lambda S: andl([CALC(S), need(S), some(S)]),
        [(fl, 2 + nb, lambda S, l, d, *ix: (andl([inb(l, L(S)), inb(d, Dn(S)), ex(S, l, ix)]), S.v('x', l, d, *ix)))], deps=layer_deps(nm, 1))
yes = lambda S: TRUE
COEFS = lambda S: S.sol('USE_COEF')
l_forms('omega', [], None, yes)
l_forms('ltau', [], None, yes)
l_forms('coef', [E, lambda S: S.f('n_coef')], lambda S, l, e, c: and_(inb(e, E(S)), inb(c, S.f('n_coef_layer', l))), COEFS)
EPS = dc(Fraction(2)**-52)
def near1(x):
    d = dsub(D1, x); return and_(not_(dlt(EPS, d)), not_(dlt(EPS, dneg(d))))
def n1(S): return ite(lt(S.a['n_coef_layer'], ZERO), S.f('n_coef'), S.a['n_coef_layer'])
def near1abs(x): return not_(dlt(EPS, dfn('abs', dsub(D1, x))))
api('xrtm_set_coef_1', [Int('i_layer'), Int('n_coef_layer'), Arr('x', 'd', E, lambda S: S.f('n_coef'))],
    lambda S: andl([COEFS(S), inb(S.a['i_layer'], L(S)), le(n1(S), S.f('n_coef')), implies(lt(ONE, n1(S)), near1abs(S.v('x', ZERO, ZERO)))]),
    [('n_coef_layer', 1, lambda S, i: (eq(i, S.a['i_layer']), n1(S))), ('n_coef_layer2', 1, lambda S, i: (eq(i, S.a['i_layer']), ite(lt(n1(S), S.f('n_coef2')), n1(S), S.f('n_coef2')))),
     ('coef0', 3, lambda S, i, e, c: (andl([eq(i, S.a['i_layer']), inb(e, E(S)), inb(c, n1(S))]), S.v('x', e, c))), ('set_flags_coef', 1, lambda S, i: (and_(init(S), eq(i, S.a['i_layer'])), ONE))],
    deps=layer_deps('coef', 0), lo=lambda S: S.a['i_layer'], hi=lambda S: add(S.a['i_layer'], ONE))
def nn(S, i): return ite(S.isnull('n_coef_layer'), S.f('n_coef'), S.v('n_coef_layer', i))
api('xrtm_set_coef_n', [Arr('n_coef_layer', 'i', L, null=True), Arr('x', 'd', L, E, lambda S: S.f('n_coef'))],
    lambda S: andl([COEFS(S), or_(S.isnull('n_coef_layer'), all_(L(S), lambda k: and_(le(ZERO, S.v('n_coef_layer', k)), le(S.v('n_coef_layer', k), S.f('n_coef'))))), all_(L(S), lambda k: implies(lt(ONE, nn(S, k)), near1abs(S.v('x', k, ZERO, ZERO))))]),
    [('n_coef_layer', 1, lambda S, i: (inb(i, L(S)), nn(S, i))), ('n_coef_layer2', 1, lambda S, i: (inb(i, L(S)), ite(lt(nn(S, i), S.f('n_coef2')), nn(S, i), S.f('n_coef2')))),
     ('coef0', 3, lambda S, i, e, c: (andl([inb(i, L(S)), inb(e, E(S)), inb(c, nn(S, i))]), S.v('x', i, e, c))), ('set_flags_coef', 1, lambda S, i: (and_(init(S), inb(i, L(S))), ONE))], deps=layer_deps('coef', 0))
api('xrtm_get_n_coef', [Int('i_layer')], lambda S: andl([COEFS(S), inb(S.a['i_layer'], L(S)), flag(S, 'set_flags_coef', S.a['i_layer'])]), value=lambda S: S.f('n_coef_layer', S.a['i_layer']))
def okc(S): return and_(inb(S.a['i_elem'], E(S)), inb(S.a['i_coef'], S.f('n_coef_layer', S.a['i_layer'])))
api('xrtm_get_coef', [Int('i_layer'), Int('i_elem'), Int('i_coef')], lambda S: andl([COEFS(S), inb(S.a['i_layer'], L(S)), flag(S, 'set_flags_coef', S.a['i_layer']), okc(S)]),
    value=lambda S: S.f('coef0', S.a['i_layer'], S.a['i_elem'], S.a['i_coef']), err='d')
api('xrtm_get_coef_l', [Int('i_layer'), Int('i_deriv'), Int('i_elem'), Int('i_coef')], lambda S: andl([COEFS(S), inb(S.a['i_layer'], L(S)), inb(S.a['i_deriv'], Dn(S)), okc(S)]),
    value=lambda S: S.f('coef0_l', S.a['i_layer'], S.a['i_deriv'], S.a['i_elem'], S.a['i_coef']), err='d')
# asymmetry parameters are not used by any solver of this build: every call is refused
for sfx, ps in (('1', [Int('i_layer'), Dbl('x')]), ('n', [Arr('x', 'd', L)]), ('l_11', [Int('i_layer'), Int('i_deriv'), Dbl('x')]), ('l_n1', [Int('i_deriv'), Arr('x', 'd', L)]), ('l_1n', [Int('i_layer'), Arr('x', 'd', Dn)]), ('l_nn', [Arr('x', 'd', L, Dn)])):
    api('xrtm_set_g_' + sfx, ps, lambda S: FALSE)
api('xrtm_get_g', [Int('i_layer')], lambda S: FALSE, err='d')
api('xrtm_get_g_l', [Int('i_layer'), Int('i_deriv')], lambda S: FALSE, err='d')

# ---------------------------------------------------------------- surface kernels
ik = lambda S: S.a['i_kernel']
okk = lambda S: inb(ik(S), S.f('n_kernels'))
okd = lambda S: inb(S.a['i_deriv'], Dn(S))
okp = lambda S: inb(S.a['i_param'], np_(S))
BR = dep('BRDF'); BRL = dep('BRDF_L')
api('xrtm_set_kernel_ampfac', [Int('i_kernel'), Dbl('x')], lambda S: andl([okk(S), ge0(S.a['x']), le1(S.a['x'])]),
    [('kernel_ampfac', 1, lambda S, i: (eq(i, ik(S)), S.a['x'])), ('set_flags_kernel_ampfac', 1, lambda S, i: (and_(init(S), eq(i, ik(S))), ONE))], deps=BR)
api('xrtm_get_kernel_ampfac', [Int('i_kernel')], lambda S: and_(okk(S), flag(S, 'set_flags_kernel_ampfac', ik(S))), value=lambda S: S.f('kernel_ampfac', ik(S)), err='d')
api('xrtm_set_kernel_params_1', [Int('i_kernel'), Int('i_param'), Dbl('x')], lambda S: and_(okk(S), okp(S)),
    [('kernel_params', 2, lambda S, i, j: (and_(eq(i, ik(S)), eq(j, S.a['i_param'])), S.a['x'])), ('set_flags_kernel_params', 2, lambda S, i, j: (andl([init(S), eq(i, ik(S)), eq(j, S.a['i_param'])]), ONE))], deps=BR)
api('xrtm_set_kernel_params_n', [Int('i_kernel'), Arr('x', 'd', np_)], okk,
    [('kernel_params', 2, lambda S, i, j: (and_(eq(i, ik(S)), inb(j, np_(S))), S.v('x', j))), ('set_flags_kernel_params', 2, lambda S, i, j: (andl([init(S), eq(i, ik(S)), inb(j, np_(S))]), ONE))], deps=BR)
api('xrtm_get_kernel_params', [Int('i_kernel'), Int('i_param')], lambda S: andl([okk(S), okp(S), flag(S, 'set_flags_kernel_params', ik(S), S.a['i_param'])]), value=lambda S: S.f('kernel_params', ik(S), S.a['i_param']), err='d')
api('xrtm_set_kernel_ampfac_l_1', [Int('i_kernel'), Int('i_deriv'), Dbl('x')], lambda S: andl([CALC(S), okk(S), okd(S)]), [('kernel_ampfac_l', 2, lambda S, i, j: (and_(eq(i, ik(S)), eq(j, S.a['i_deriv'])), S.a['x']))], deps=BRL)
api('xrtm_set_kernel_ampfac_l_n', [Int('i_kernel'), Arr('x', 'd', Dn)], lambda S: and_(CALC(S), okk(S)), [('kernel_ampfac_l', 2, lambda S, i, j: (and_(eq(i, ik(S)), inb(j, Dn(S))), S.v('x', j)))], deps=BRL)
api('xrtm_get_kernel_ampfac_l', [Int('i_kernel'), Int('i_deriv')], lambda S: and_(okk(S), okd(S)), value=lambda S: S.f('kernel_ampfac_l', ik(S), S.a['i_deriv']), err='d')
api('xrtm_set_kernel_params_l_11', [Int('i_kernel'), Int('i_deriv'), Int('i_param'), Dbl('x')], lambda S: andl([CALC(S), okk(S), okd(S), okp(S)]),
    [('kernel_params_l', 3, lambda S, i, j, k: (andl([eq(i, ik(S)), eq(j, S.a['i_deriv']), eq(k, S.a['i_param'])]), S.a['x']))], deps=BRL)
api('xrtm_set_kernel_params_l_1n', [Int('i_kernel'), Int('i_deriv'), Arr('x', 'd', np_)], lambda S: andl([CALC(S), okk(S), okd(S)]),
    [('kernel_params_l', 3, lambda S, i, j, k: (andl([eq(i, ik(S)), eq(j, S.a['i_deriv']), inb(k, np_(S))]), S.v('x', k)))], deps=BRL)
api('xrtm_set_kernel_params_l_n1', [Int('i_kernel'), Int('i_param'), Arr('x', 'd', Dn)], lambda S: andl([CALC(S), okk(S), okp(S)]),
    [('kernel_params_l', 3, lambda S, i, j, k: (andl([eq(i, ik(S)), inb(j, Dn(S)), eq(k, S.a['i_param'])]), S.v('x', j)))], deps=BRL)
api('xrtm_set_kernel_params_l_nn', [Int('i_kernel'), Arr('x', 'd', Dn, np_)], lambda S: andl([CALC(S), okk(S)]),
    [('kernel_params_l', 3, lambda S, i, j, k: (andl([eq(i, ik(S)), inb(j, Dn(S)), inb(k, np_(S))]), S.v('x', j, k)))], deps=BRL)
api('xrtm_get_kernel_params_l', [Int('i_kernel'), Int('i_deriv'), Int('i_param')], lambda S: andl([okk(S), okd(S), okp(S)]), value=lambda S: S.f('kernel_params_l', ik(S), S.a['i_deriv'], S.a['i_param']), err='d')

# ---------------------------------------------------------------- solar and output angles
INT = lambda S: S.sol('INTERNAL')
QU = lambda S: add(S.f('n_quad'), S.f('n_umus'))
def n4(S, mu, f1, f2, u0):
    noaz = orl([S.opt('NO_AZIMUTHAL'), and_(not_(SOLAR(S)), TH(S)), and_(eq(S.f('n_stokes'), ONE), or_(and_(f1, deq(mu, D1)), and_(f2, and_(eq(U(S), ONE), deq(u0, D1)))))])
    return ite(noaz, ONE, S.f('n_four'))
def aux(kind, c):
    sn = dfn('sqrt', dsub(D1, dmul(c, c))); t = ddiv(sn, c)
    return {'cos_theta': c, 'sin_theta': sn, 'tan_theta': t, 'tan_theta2': dmul(t, t)}[kind]
AUX = ('cos_theta', 'sin_theta', 'tan_theta', 'tan_theta2')
def auxk(S): return and_(INT(S), KER(S))
fl_ = lambda S, n: not_(eq0(S.f('set_flags_' + n)))
api('xrtm_set_theta_0', [Dbl('theta_0')], lambda S: andl([SOLAR(S), angle(S.a['theta_0']), eq0(S.rv)]),
    [('mu_0_0', 0, lambda S: (TRUE, cosd(S.a['theta_0']))), one('set_flags_mu_0'), ('n_four2', 0, lambda S: (TRUE, n4(S, cosd(S.a['theta_0']), TRUE, fl_(S, 'umus'), S.f('qx', S.f('n_quad')))))]
    + [('kernel_aux.' + k, 1, lambda S, i, k=k: (and_(auxk(S), eq(i, QU(S))), aux(k, S.now('mu_0')))) for k in AUX], free=('mu_0',), deps=dep('MU_0'))
def th(S, i): return cosd(S.v('out_thetas', i))
def uq(S, i): return and_(le(S.f('n_quad'), i), lt(i, QU(S)))
def uqv(S, i): return and_(INT(S), and_(le(S.f('n_quad_v'), i), lt(i, add(S.f('n_quad_v'), S.f('n_umus_v')))))
api('xrtm_set_out_thetas', [Arr('out_thetas', 'd', U)], lambda S: andl([lt(ZERO, U(S)), all_(U(S), lambda k: angle(S.v('out_thetas', k))), eq0(S.rv)]),
    [('qx', 1, lambda S, i: (uq(S, i), th(S, sub(i, S.f('n_quad'))))), ('qw', 1, lambda S, i: (uq(S, i), D0)), one('set_flags_umus'),
     ('qx_v', 1, lambda S, i: (uqv(S, i), th(S, tdiv(sub(i, S.f('n_quad_v')), S.f('n_stokes'))))), ('qw_v', 1, lambda S, i: (uqv(S, i), D0)),
     ('n_four2', 0, lambda S: (TRUE, n4(S, S.f('mu_0_0'), fl_(S, 'mu_0'), TRUE, th(S, ZERO))))]
    + [('kernel_aux.' + k, 1, lambda S, i, k=k: (and_(auxk(S), uq(S, i)), aux(k, th(S, sub(i, S.f('n_quad')))))) for k in AUX]
    + [('kernel_aux.' + k, 1, lambda S, i, k=k: (and_(auxk(S), and_(fl_(S, 'mu_0'), eq(i, QU(S)))), aux(k, S.now('mu_0')))) for k in AUX],
    free=('mu_0', 'alpha1', 'alpha2'), split=('n_stokes', (1, 2, 3, 4)), deps=dep('UMUS') + [(('MU_0',), lambda S: not_(deq(S.f('mu_0'), S.now('mu_0'))))])
SRC = ('src/xrtm_interface.c', 'src/xrtm_support.c', 'src/xrtm_utility.c', 'src/xrtm_brdf.c')
