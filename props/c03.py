"""C03: creation accepts exactly the consistent configurations.
 1. xrtm_check_options / xrtm_check_counts / xrtm_check_solvers return 0 exactly when none of the rules below is violated;
 2. xrtm_create_misc: the dimensions are in their domains, the three checks are asked about the completed options and the given
    dimensions, anything refused is refused with an error, nothing else is refused, and the options, quadrature and sizes implied by
    the others are filled in."""
from props.c06 import safe
from vf import iface, guard, handle, prove, build, solve
from vf.terms import *
from vf.handle import K
from vf.iface import Api
from vf.sym import Unsupported
FLOOR = 100
U = 'src/xrtm_interface.c'
ON = ['CALC_DERIVS', 'REVERSE_DERIVS', 'DELTA_M', 'N_T_TMS', 'FOUR_CONV_OLD', 'FOUR_CONV_NEW', 'NO_AZIMUTHAL', 'OUTPUT_AT_LEVELS', 'OUTPUT_AT_TAUS', 'PART_SOL_CLASSICAL', 'PART_SOL_GREENS', 'PHASE_SCALAR', 'PHASE_MATRIX_GC',
      'PHASE_MATRIX_LC', 'PSA', 'QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO', 'SAVE_LEG_POLYS', 'SAVE_PHASE_MATS', 'SAVE_LOCAL_R_T', 'SAVE_LAYER_R_T_S', 'SAVE_TOTAL_R_T_S', 'SFI', 'SOURCE_SOLAR', 'SOURCE_THERMAL',
      'STACK_REUSE_ADDING', 'TOP_DOWN_ADDING', 'BOTTOM_UP_ADDING', 'UPWELLING_OUTPUT', 'DOWNWELLING_OUTPUT', 'VECTOR']
_m = {}
def masks():
    if not _m:
        n = ['XRTM_OPTION_' + x for x in ON] + ['XRTM_SOLVER_' + x for x in handle.SOLV] + ['QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO']
        for k, v in zip(n, build.consts(*n)): _m[k] = v & 0xffffffff
    return _m
def obit(t, n): return bit(t, masks()['XRTM_OPTION_' + n].bit_length() - 1)
def sbits(t, names): return orl(bit(t, masks()['XRTM_SOLVER_' + n].bit_length() - 1) for n in names)

GROUPS = [('a convergence type', ['FOUR_CONV_OLD', 'FOUR_CONV_NEW']), ('a type of output levels', ['OUTPUT_AT_LEVELS', 'OUTPUT_AT_TAUS']), ('a type of particular solution', ['PART_SOL_CLASSICAL', 'PART_SOL_GREENS']),
    ('a type of phase function', ['PHASE_SCALAR', 'PHASE_MATRIX_GC', 'PHASE_MATRIX_LC']), ('a quadrature', ['QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO'])]
PAIRS = [('N_T_TMS', 'NO_AZIMUTHAL'), ('SAVE_LAYER_R_T_S', 'STACK_REUSE_ADDING'), ('STACK_REUSE_ADDING', 'TOP_DOWN_ADDING'), ('TOP_DOWN_ADDING', 'BOTTOM_UP_ADDING')]
def rules_options(t):
    o = lambda n: obit(t, n); out = []
    for n, g in GROUPS:
        out.append(('%s is missing' % n, andl(not_(o(x)) for x in g)))
        out += [('%s and %s together' % (a, b), and_(o(a), o(b))) for i, a in enumerate(g) for b in g[i+1:]]
    out += [('%s and %s together' % p, and_(o(p[0]), o(p[1]))) for p in PAIRS]
    out.append(('STACK_REUSE_ADDING without CALC_DERIVS', and_(o('STACK_REUSE_ADDING'), not_(o('CALC_DERIVS')))))
    out.append(('no output direction', and_(not_(o('UPWELLING_OUTPUT')), not_(o('DOWNWELLING_OUTPUT')))))
    pm = or_(o('PHASE_MATRIX_GC'), o('PHASE_MATRIX_LC'))
    return out + [('a phase matrix without VECTOR', and_(pm, not_(o('VECTOR')))), ('VECTOR without a phase matrix', and_(o('VECTOR'), not_(pm)))]
def rules_counts(t, v):
    o = lambda n: obit(t, n)
    return [('derivatives without CALC_DERIVS', and_(not_(o('CALC_DERIVS')), lt(ZERO, v['n_derivs']))), ('CALC_DERIVS without derivatives', and_(o('CALC_DERIVS'), eq0(v['n_derivs']))),
        ('too few coefficients for DELTA_M', and_(o('DELTA_M'), lt(v['max_coef'], add(scale(2, v['n_quad']), ONE)))), ('SFI without user angles', and_(o('SFI'), eq0(v['n_out_thetas']))),
        ('TOP_DOWN_ADDING with more than one level', and_(o('TOP_DOWN_ADDING'), not_(eq(v['n_out_levels'], ONE)))), ('BOTTOM_UP_ADDING with more than one level', and_(o('BOTTOM_UP_ADDING'), not_(eq(v['n_out_levels'], ONE)))),
        ('Stokes components without VECTOR', and_(not_(o('VECTOR')), lt(ONE, v['n_stokes'])))]
ALLS = handle.SOLV
def rules_solvers(t, s, v):
    o = lambda n: obit(t, n); no = lambda *n: sbits(s, n)
    ADD = ('EIG_BVP', 'MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS')
    R = [('n_quad for TWO_STREAM', not_(eq(v['n_quad'], ONE)), ('TWO_STREAM',)), ('n_quad for FOUR_STREAM', not_(eq(v['n_quad'], ic(2))), ('FOUR_STREAM',)), ('n_quad for SIX_STREAM', not_(eq(v['n_quad'], ic(3))), ('SIX_STREAM',)),
        ('more than one solar angle', not_(eq(v['n_theta_0s'], ONE)), [x for x in ALLS if x != 'DOUB_ADD']), ('more than two levels', lt(ic(2), v['n_out_levels']), ('DOUB_ADD', 'EIG_ADD', 'PADE_ADD', 'SOS', 'TWO_OS')),
        ('user angles without SFI', and_(lt(ZERO, v['n_out_thetas']), not_(o('SFI'))), ('TWO_STREAM', 'FOUR_STREAM', 'SIX_STREAM')), ('DELTA_M without N_T_TMS', and_(o('DELTA_M'), not_(o('N_T_TMS'))), ('SINGLE',)),
        ('N_T_TMS', o('N_T_TMS'), ('TWO_OS',)), ('NO_AZIMUTHAL', o('NO_AZIMUTHAL'), ('SINGLE',)), ('OUTPUT_AT_TAUS', o('OUTPUT_AT_TAUS'), ('DOUB_ADD', 'EIG_ADD', 'PADE_ADD', 'SOS')), ('QUAD_LOBATTO', o('QUAD_LOBATTO'), ALLS),
        ('SFI', o('SFI'), ('DOUB_ADD', 'EIG_ADD', 'MEM_BVP', 'PADE_ADD', 'SOS')), ('no solar source', not_(o('SOURCE_SOLAR')), ('MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS')),
        ('a thermal source', o('SOURCE_THERMAL'), ('FOUR_STREAM', 'MEM_BVP', 'SINGLE', 'SIX_STREAM', 'SOS', 'TWO_OS', 'TWO_STREAM'))] + [(x, o(x), ADD) for x in ('STACK_REUSE_ADDING', 'TOP_DOWN_ADDING', 'BOTTOM_UP_ADDING')]
    return [('%s with solver %s' % (n, x), and_(c, no(x))) for n, c, xs in R for x in xs]

def check_solvers(s, g, a):
    """contract of the variadic helper: an error exactly when one of the listed solvers is among the given ones"""
    hit = FALSE
    for t in a[5:]:
        if t.op != 'c': raise Unsupported('list of solvers')
        if t.a[0] == 0: break
        hit = or_(hit, orl(bit(a[0], b) for b in range(32) if (t.a[0] >> b) & 1))
    else: raise Unsupported('list of solvers without an end')
    s.ends = True
    return ite(hit, ic(-1), ZERO)
NAMES = ['options', 'max_coef', 'n_quad', 'n_stokes', 'n_derivs', 'n_layers', 'n_theta_0s', 'n_kernels', 'n_kernel_quad', 'kernels', 'n_out_levels', 'n_out_thetas', 'report']
PAR = {'xrtm_check_options': ['options', 'report'], 'xrtm_check_counts': NAMES, 'xrtm_check_solvers': ['options', 'solvers'] + NAMES[1:]}
CRE = ['options', 'solvers', 'max_coef', 'n_quad', 'n_stokes', 'n_derivs', 'n_layers', 'n_theta_0s', 'n_kernels', 'n_kernel_quad', 'kernels', 'n_out_levels', 'n_out_thetas', 'misc_input']
def smp_():
    def ranges(pt, t, name, args):
        if t.s == 'i' and str(name) == 'options': return pt.rint((name,), 0, 2**32 - 1)
        if t.s == 'i' and str(name) == 'solvers': return pt.rint((name,), 0, 2047)
        if t.s == 'i' and str(name).startswith(('n_', 'max')): return pt.rint((name,), 0, 4)
        return None
    return lambda seed: Point(seed, pins={}, ranges=ranges)
DIM = ['max_coef', 'n_quad', 'n_stokes', 'n_derivs', 'n_layers', 'n_theta_0s', 'n_kernels', 'n_kernel_quad', 'n_out_levels', 'n_out_thetas']
def over_(names, v): return {k: v[n] for k, n in enumerate(names) if n in v}
def vars_(): return {n: ivar(n) for n in ['options', 'solvers', 'report'] + DIM}

def checks(ctx, mods, fn):
    v = vars_(); F = mods[0].funcs.get(fn)
    if F is None or len(F.params) != len(PAR[fn]): raise Unsupported('parameter list of %s changed' % fn)
    o = over_(PAR[fn], v)
    R = guard.Run(mods, fn, result={'check_solvers': check_solvers}, opaque=False, wf=False, over={**{k: ptr(Fam0(n)) for k, n in enumerate(PAR[fn]) if n == 'kernels'}, **o})
    t = v['options']; rules = rules_options(t) if fn.endswith('options') else rules_counts(t, v) if fn.endswith('counts') else rules_solvers(t, v['solvers'], v)
    ok = eq0(R.rv); smp = smp_(); bad = FALSE
    for n, c in rules:
        ctx.result('%s: refused: %s' % (fn, n), prove.prove(not_(ok), and_(R.pre, c), R.facts, sampler=smp, seed=ctx.seed)); bad = or_(bad, c)
    ctx.result('%s: everything else is accepted' % fn, prove.prove(ok, and_(R.pre, not_(bad)), R.facts, sampler=smp, seed=ctx.seed))
    ctx.stat(R.ex)
def Fam0(n):
    from vf.sym import Fam
    return Fam(n)

def create(ctx, mods, fn):
    v = vars_(); F = mods[0].funcs.get(fn)
    if F is None or len(F.params) != len(CRE) + 1: raise Unsupported('parameter list of %s changed' % fn)
    chk = {'xrtm_check_options': ivar('check_options'), 'xrtm_check_counts': ivar('check_counts'), 'xrtm_check_solvers': ivar('check_solvers')}
    R = guard.Run(mods, fn, opaque=2, wf=False, over={k + 1: v[n] for k, n in enumerate(CRE) if n in v}, result=dict({k: (lambda s, g, a, t=t: t) for k, t in chk.items()},
        kernel_is_valid=lambda s, g, a: app('kernel_is_valid', (a[0],), 'i')))
    H = R.H; pre = R.pre; ok = and_(pre, eq0(R.rv)); smp = smp_()
    def P(n, c, g): ctx.result('%s: %s' % (fn, n), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    opt = v['options']; o = lambda n: obit(opt, n)
    # domains of the dimensions
    dom = [('max_coef', lt(v['max_coef'], ZERO)), ('n_quad', le(v['n_quad'], ZERO)), ('n_stokes', or_(le(v['n_stokes'], ZERO), lt(ic(4), v['n_stokes']))), ('n_derivs', lt(v['n_derivs'], ZERO)), ('n_layers', le(v['n_layers'], ZERO)),
           ('n_theta_0s', le(v['n_theta_0s'], ZERO)), ('n_kernels', lt(v['n_kernels'], ZERO)), ('n_kernel_quad', and_(lt(ZERO, v['n_kernels']), le(v['n_kernel_quad'], ZERO))), ('n_out_levels', le(v['n_out_levels'], ZERO)), ('n_out_thetas', lt(v['n_out_thetas'], ZERO))]
    err = nz(R.rv); bad = FALSE
    for n, c in dom: P('refused: %s outside its domain' % n, err, and_(pre, c)); bad = or_(bad, c)
    kk = ivar('ix:0', 0)
    from vf.structs import size_of
    karg = R.a[CRE.index('kernels') + 1]
    kv = [c for c in R.calls if c[0] == 'kernel_is_valid']
    if not kv: ctx.result('%s: the kernels are checked' % fn, prove.Result(False, 'calls', 'kernel_is_valid is never called'))
    else:
        kat = R.ex.load(ptr_off(karg, scale(4, kk)), I32_(), TRUE)
        inv = and_(and_(le(ZERO, kk), lt(kk, v['n_kernels'])), eq0(app('kernel_is_valid', (kat,), 'i')))
        P('refused: a kernel type is invalid', err, and_(pre, inv))
    for n, t in chk.items():
        c = R.called(n)
        if c is FALSE: ctx.result('%s: %s is asked' % (fn, n), prove.Result(False, 'calls', n + ' is never called')); continue
        P('%s is asked' % n, c, ok); P('refused when %s refuses' % n, err, andl([pre, not_(bad), nz(t), c]))
        P('nothing is allocated when %s refuses' % n, not_(R.called(*[x for x in {c[0] for c in R.calls} if x.startswith(('jalloc', 'work_init', 'flags_alloc'))])), and_(pre, and_(c, nz(t))))
        for nm, g, a in R.calls:
            if nm != n: continue
            for x, p in zip(PAR[n], a):
                if x in ('options', 'report'): continue
                if x == 'kernels': P('%s is asked about the given kernels' % n, peq(p, karg), and_(pre, g))
                else: P('%s is asked about the given %s' % (n, x), eq(p, v[x]), and_(pre, g))
            P('%s is asked about the completed options' % n, andl(iff(bit(a[0], b), want(opt, v, b, early=True)) for b in range(32)), and_(pre, g))
    work = R.called('jalloc_array1')
    if work is not FALSE: P('an accepted configuration is set up', work, andl([pre, not_(bad), allvalid(R, v, karg)] + [eq0(t) for t in chk.values()]))
    # what is recorded
    for f, n in [('n_coef', 'max_coef'), ('n_quad', 'n_quad'), ('n_stokes', 'n_stokes'), ('n_layers', 'n_layers'), ('n_theta_0s', 'n_theta_0s'), ('n_kernels', 'n_kernels'), ('n_kernel_quad', 'n_kernel_quad'), ('n_ulevels', 'n_out_levels'), ('n_umus', 'n_out_thetas'), ('solvers', 'solvers')]:
        P('%s recorded' % f, eq(H.now(f, g=ok), v[n]), ok)
    now = H.now('options', g=ok)
    for b in range(32): P('option bit %d' % b, iff(bit(now, b), want(opt, v, b)), ok)
    now = lambda f: H.now(f, g=ok)
    ow = lambda n: want(opt, v, masks()['XRTM_OPTION_' + n].bit_length() - 1)
    q2 = scale(2, v['n_quad']); n = v['max_coef']; c2 = ite(le(n, q2), n, q2)
    P('n_derivs', eq(now('n_derivs'), ite(o('CALC_DERIVS'), v['n_derivs'], ZERO)), ok)
    P('n_coef2', eq(now('n_coef2'), c2), ok)
    P('n_four', eq(now('n_four'), ite(or_(eq0(n), ow('NO_AZIMUTHAL')), ONE, c2)), ok)
    P('n_elem', eq(now('n_elem'), ite(eq(v['n_stokes'], ONE), ONE, ic(6))), ok)
    qx = ite(ow('SFI'), v['n_quad'], add(v['n_quad'], v['n_out_thetas'])); qd = add(v['n_quad'], v['n_out_thetas']); S = v['n_stokes']
    for f, t in [('n_quad_x', qx), ('n_quad_d', qd), ('n_quad_v', mul(v['n_quad'], S)), ('n_quad_v_x', mul(qx, S)), ('n_quad_v_d', mul(qd, S)), ('n_umus_v', mul(v['n_out_thetas'], S))]: P(f, eq(now(f), t), ok)
    one = andl(not_(and_(ow(a), ow(b))) for a, b in (('QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG'), ('QUAD_NORM_GAUS_LEG', 'QUAD_LOBATTO'), ('QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO')))   # contract of xrtm_check_options
    qs = ('gauss_leg_quad', 'gauss_leg_quad2'); fills = lambda a: andl([eq(a[0], v['n_quad']), peq(a[1], H.d.get(R.ex, 'qx', g=ok)), peq(a[2], H.d.get(R.ex, 'qw', g=ok))]); touches = lambda a: peq(a[1], H.d.get(R.ex, 'qx', g=ok))
    for name, opts in zip(qs, ('QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG')):
        P('%s fills the angles of the handle' % opts, R.called(name, args=fills), andl([ok, one, ow(opts)]))
        P('no other quadrature than %s' % opts, not_(R.called(*[x for x in qs if x != name], args=touches)), andl([ok, one, ow(opts)]))
    kr = and_(le(ZERO, kk), lt(kk, v['n_kernels']))
    P('kernels recorded', eq(H.now('kernels', kk, g=and_(ok, kr)), R.ex.load(ptr_off(karg, scale(4, kk)), I32_(), TRUE)), and_(ok, kr))
    P('the polynomials of no Fourier term are held', andl(eq(H.now('order_' + x, g=ok), ic(-1)) for x in 'p0u'), ok)
    ctx.stat(R.ex)
def wrapper(ctx, mods, fn):
    v = vars_(); names = CRE[:-1]
    if fn not in mods[0].funcs or len(mods[0].funcs[fn].params) != len(names) + 1: raise Unsupported('parameter list of %s changed' % fn)
    R = guard.Run(mods, fn, opaque=2, wf=False, over={k + 1: v[n] for k, n in enumerate(names) if n in v}, result={'xrtm_create_misc': lambda s, g, a: ivar('status')}); smp = smp_()
    def P(n, c, g): ctx.result('%s: %s' % (fn, n), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    c = R.called('xrtm_create_misc', args=lambda a: andl([peq(a[0], R.a[0])] + [eq(x, v[n]) for x, n in zip(a[1:], names) if n in v] + [peq(a[CRE.index('kernels') + 1], R.a[CRE.index('kernels') + 1])]))
    if R.called('xrtm_create_misc') is FALSE: raise Unsupported('xrtm_create_misc is not called')
    P('every argument is passed on', c, R.pre); P('a failure is an error', iff(nz(R.rv), nz(ivar('status'))), R.pre)
    ctx.stat(R.ex)
def quad(ctx, mods, fn):
    R = guard.Run(mods, fn, opaque=2, wf=False); m = masks(); smp = smp_(); H = R.H
    for n in ('QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO'):
        o = andl(obit(H.f('options'), x) if x == n else not_(obit(H.f('options'), x)) for x in ('QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO'))
        ctx.result('%s: %s' % (fn, n), prove.prove(eq(R.rv, ic(m[n])), and_(R.pre, o), R.facts, sampler=smp, seed=ctx.seed))
    ctx.stat(R.ex)
def nz(t): return not_(eq0(t))
def I32_():
    from vf import ir
    return ir.I32
def ptr_off(p, off): return ptr(p.a[0], p.a[1], add(p.a[2], off))
def allvalid(R, v, karg):
    from props.api import all_
    return all_(v['n_kernels'], lambda k: nz(app('kernel_is_valid', (R.ex.load(ptr_off(karg, scale(4, k)), I32_(), TRUE),), 'i')))

def want(t, v, b, early=False):
    """the completed options"""
    m = masks(); o = lambda n: obit(t, n); isb = lambda n: m['XRTM_OPTION_' + n] == 1 << b; raw = bit(t, b)
    vec = or_(o('VECTOR'), lt(ONE, v['n_stokes'])); none = lambda *g: andl(not_(o(x)) for x in g)
    nop = none('PHASE_SCALAR', 'PHASE_MATRIX_GC', 'PHASE_MATRIX_LC')
    if isb('VECTOR'): return vec
    if isb('DELTA_M'): return or_(raw, o('N_T_TMS'))
    if isb('FOUR_CONV_NEW'): return or_(raw, none('FOUR_CONV_OLD', 'FOUR_CONV_NEW'))
    if isb('PART_SOL_CLASSICAL'): return or_(raw, none('PART_SOL_CLASSICAL', 'PART_SOL_GREENS'))
    if isb('PHASE_SCALAR'): return or_(raw, and_(nop, not_(vec)))
    if isb('PHASE_MATRIX_GC'): return or_(raw, and_(nop, vec))
    if isb('QUAD_DOUB_GAUS_LEG'): return or_(raw, none('QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO'))
    if isb('UPWELLING_OUTPUT') or isb('DOWNWELLING_OUTPUT'): return or_(raw, none('UPWELLING_OUTPUT', 'DOWNWELLING_OUTPUT'))
    if isb('SAVE_PHASE_MATS') and not early: return or_(raw, o('PHASE_MATRIX_LC'))
    return raw

def run(ctx):
    iface.K(); iface.structs.layouts(); masks()
    mods = ctx.load(U, 'src/xrtm_brdf.c')
    items = [(f, checks) for f in PAR] + [('xrtm_create_misc', create), ('xrtm_create', wrapper), ('xrtm_quad_to_quad_type', quad)]
    ctx.par(items, lambda c, it: safe(c, it[0], it[1], mods, it[0]))
