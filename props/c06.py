"""C06: changed inputs are never answered from stale intermediate results.
Invariant of a handle: for each saved result Q and each input that Q depends on, if the input changed since Q was last built then
the corresponding bit of Q's dependency flag is set.  Three groups of contracts keep it:
 1. setters: every set call passes the bits of its input, for every layer it covers, to set_deps (props/api.py);
 2. set_deps/init_deps: every flag of every result that can depend on the layer receives the bits; no bit is ever cleared;
 3. getters: a result is rebuilt whenever a bit it depends on is set, and a bit is cleared only by a call that rebuilds."""
from props import api
from vf import iface, guard, handle, prove, solve
from vf.terms import *
from vf.contract import Int, Arr, Session
from vf.iface import S_, Api
from vf.handle import K, Handle
from vf.sym import Unsupported
FLOOR = 150
F4 = ['Y_p', 'Y_0', 'Y_u', 'diff_bound_input', 'total_R_T_S_U_W_V']
L1 = ['opt_props', 'beam_params']
FL = ['phase_mats_qq', 'phase_mats_uq', 'phase_vecs_q0', 'phase_vecs_u0', 'local_r_t_u_w', 'layer_R_T_S_U_W_V']
DOWN = {'beam_params', 'layer_R_T_S_U_W_V'}     # also depend on the layers above

def marking(ctx, mods, fn):
    """set_deps / init_deps"""
    A = Api(fn, [Int('dep'), Int('i_layer'), Int('n_layers')], err=None)
    S = S_(mods, A); ex = S.ex; H = S.H
    dep, lo, n = S.a['dep'], S.a['i_layer'], S.a['n_layers']
    S.facts = H.wf() + [le(ZERO, lo), le(n, S.f('n_layers'))]
    pre = TRUE
    for f in S.facts:
        if type(f) is not tuple and f.op in ('le0', 'eq0', 'not'): pre = and_(pre, f)
    ex.facts = list(S.facts); ex.solver = solve.make_solver(S.facts)
    if len(ex.funcs[fn].params) != 4: raise Unsupported('parameter list of %s changed' % fn)
    ex.exec_function(ex.funcs[fn], S.args, pre)
    i, l = ivar('ix:four', 0), ivar('ix:layer', 0); smp = iface.sampler(S, A)
    four = and_(le(ZERO, i), lt(i, S.f('n_four')))
    lay = and_(le(lo, l), lt(l, n)); lay2 = and_(le(lo, l), lt(l, S.f('n_layers')))
    out = []
    def one(field, ix, cond, must):
        new, old = H.now(field, *ix, g=and_(pre, cond)), H.f(field, *ix)
        for b in range(32):
            out.append(('%s: %s, bit %d set where it was required' % (fn, field, b), prove.prove(implies(and_(must, bit(dep, b)), bit(new, b)), and_(pre, cond), S.facts, sampler=smp, seed=ctx.seed)))
            if not out[-1][1].ok: break
        if fn != 'init_deps':
            for b in range(32):
                out.append(('%s: %s, bit %d never cleared' % (fn, field, b), prove.prove(implies(bit(old, b), bit(new, b)), and_(pre, cond), S.facts, sampler=smp, seed=ctx.seed)))
                if not out[-1][1].ok: break
    own = FL_ = None
    for q in ('utaus', 'chapman'): one('dep_flags_' + q, (), TRUE, TRUE)
    for q in F4: one('dep_flags_' + q, (i,), four, TRUE)
    for q in L1: one('dep_flags_' + q, (l,), and_(le(ZERO, l), lt(l, S.f('n_layers'))), lay2 if q in DOWN and fn != 'init_deps' else lay)
    for q in FL: one('dep_flags_' + q, (i, l), andl([four, le(ZERO, l), lt(l, S.f('n_layers'))]), lay2 if q in DOWN and fn != 'init_deps' else lay)
    ctx.stat(ex)
    for nm, r in out: ctx.result(nm, r)

def bitcond(R, n):
    """when does the configuration make the result depend on this input"""
    o = R.H.opt; D = o('CALC_DERIVS')
    return n

def need(R, *names):
    """[(bit number, condition)]"""
    out = []; o = R.H.opt; k = K()
    for n in names:
        c = TRUE; nm = n
        if '?' in n: nm, cc = n.split('?'); c = R.H.cond(cc)
        if nm.endswith('_L'): c = and_(c, o('CALC_DERIVS'))
        out.append((nm, k['DEP_MASK_' + nm].bit_length() - 1, c))
    return out
Q = ['COEF', 'COEF_L', 'UMUS?!SFI']
LOC = Q + ['OMEGA', 'OMEGA_L']
BEAM = ['MU_0?SOURCE_SOLAR', 'LTAU', 'LTAU_L', 'PLANET_R?SOURCE_SOLAR & PSA', 'LEVELS_Z?SOURCE_SOLAR & PSA']
LAYER = LOC + BEAM + ['F_0?SOURCE_SOLAR', 'LEVELS_B?SOURCE_THERMAL', 'LEVELS_B_L?SOURCE_THERMAL', 'DOUB_D_TAU?DOUB', 'PADE_PARAMS?PADE']
BI = BEAM + ['F_ISO_TOP', 'F_ISO_TOP_L', 'F_ISO_BOT', 'F_ISO_BOT_L', 'SURFACE_B?SOURCE_THERMAL & KER', 'SURFACE_B_L?SOURCE_THERMAL & KER', 'UMUS', 'F_0?SOURCE_SOLAR', 'BRDF?KER', 'BRDF_L?KER']
# function, flag, inlined helpers, condition under which the result is kept between calls, functions that build it, inputs, calls required before the build
G = [
 ('get_phase_vecs_q0', 'phase_vecs_q0', 'fl', ('phase_vecs_get',), 'SAVE_PHASE_MATS', ('build_phase_vecs_scalar', 'build_phase_vecs_vector_gc', 'build_phase_vecs_vector_lc'), ['COEF', 'COEF_L', 'MU_0', 'UMUS?!SFI'], ()),
 ('get_phase_mats_qq', 'phase_mats_qq', 'fl', ('phase_mats_get',), 'SAVE_PHASE_MATS', ('build_phase_mats_scalar', 'build_phase_mats_vector_gc', 'build_phase_mats_vector_lc', 'phase_matrix_symmetry2', 'phase_matrix_symmetry3', 'phase_matrix_symmetry_ldx3'), Q, ()),
 ('get_local_r_t_u_w', 'local_r_t_u_w', 'fl', (), 'SAVE_LOCAL_R_T', ('build_local_r_and_t',), LOC, ('update_opt_props', 'get_phase_mats_qq')),
 ('get_layer_R_T_S_U_W_V', 'layer_R_T_S_U_W_V', 'fl', (), 'SAVE_LAYER_R_T_S', ('call_solver', 'no_scatter_r_t_s'), LAYER, ('update_opt_props',)),
 ('get_total_BOA_R_S_U_V', 'total_R_T_S_U_W_V', 'f', (), 'SAVE_TOTAL_R_T_S', ('get_layer_R_T_S_U_W_V',), LAYER, ()),
 ('get_total_TOA_R_S_U_V', 'total_R_T_S_U_W_V', 'f', (), 'SAVE_TOTAL_R_T_S', ('get_layer_R_T_S_U_W_V',), LAYER, ()),
 ('get_total_R_T_S_U_W_V', 'total_R_T_S_U_W_V', 'f', (), 'SAVE_TOTAL_R_T_S', ('get_layer_R_T_S_U_W_V',), LAYER, ()),
 ('get_total_R_T_S_U_W_V_2', 'total_R_T_S_U_W_V', 'f', (), 'SAVE_TOTAL_R_T_S', ('build_layer_stacks',), LAYER, ()),
 ('update_diff_bound_input', 'diff_bound_input', 'f', ('diff_bound_input_update',), None, ('init_array1_d',), BI, ('update_beam_params',)),
 ('get_chapman', 'chapman', '', (), None, ('chapman_functions',), ['MU_0', 'PLANET_R', 'LEVELS_Z'], ()),
]
def guards(ctx, mods, spec):
    fn, q, kind, inl, save, build_, bits, before = spec
    R = guard.Run(mods, fn, inline=('resolve_deps*',) + inl, opaque=2 if fn == 'get_total_R_T_S_U_W_V_2' else True)
    H, ex, pre = R.H, R.ex, R.pre; fld = 'dep_flags_' + q
    ix = {'fl': (R.a.get(1), R.a.get(2)), 'f': (R.a.get(1),), '': ()}[kind]
    if any(x is None or x.s != 'i' for x in ix): raise Unsupported('parameters of %s changed' % fn)
    rng_ = TRUE
    if kind: rng_ = andl([le(ZERO, ix[0]), lt(ix[0], H.f('n_four'))])
    if kind == 'fl': rng_ = andl([rng_, le(ZERO, ix[1]), lt(ix[1], H.f('n_layers'))])
    okr = eq0(R.rv) if R.rv is not None and R.rv.s == 'i' else TRUE
    built = R.called(*build_)
    if built is FALSE: raise Unsupported('no call of a function that builds the result in ' + fn)
    old = H.f(fld, *ix); smp = iface.sampler(type('S', (), {})(), Api(fn, []))
    g0 = andl([pre, rng_, okr])
    if 'phase' in fn:       # the long-form phase matrices (PHASE_MATRIX_LC) are compiled only with INCLUDE_DEV_SOURCE
        g0 = and_(g0, or_(H.opt('PHASE_SCALAR'), H.opt('PHASE_MATRIX_GC')))
        pre = and_(pre, or_(H.opt('PHASE_SCALAR'), H.opt('PHASE_MATRIX_GC')))
    def P(name, c, g): ctx.result('%s: %s' % (fn, name), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    if save:
        P('built when it is not kept', built, and_(g0, not_(H.opt(save))))
        g0 = and_(g0, H.opt(save))
    for nm, b, c in need(R, *bits): P('rebuilt after a change of %s' % nm, built, andl([g0, c, bit(old, b)]))
    # bits are cleared only together with a rebuild, and only of this result
    jx = [ivar('ix:%d' % z, 0) for z in range(len(ix))]
    jr = andl([le(ZERO, j) for j in jx] + [lt(j, H.f(n)) for j, n in zip(jx, ('n_four', 'n_layers'))])
    for b in sorted({b for _, b, _ in need(R, *bits)}):
        new, o2 = H.now(fld, *jx, g=and_(pre, jr)), H.f(fld, *jx)
        same = andl(eq(x, y) for x, y in zip(jx, ix))
        if kind == 'fl': same = or_(same, and_(H.opt('PHASE_MATRIX_LC'), eq(jx[1], ix[1])))
        P('bit %d cleared only by a rebuild of the same result' % b, implies(and_(bit(o2, b), not_(bit(new, b))), and_(built, same)), andl([pre, rng_, okr, jr]))
    for other in ['utaus', 'chapman'] + F4 + L1 + FL:
        if other == q: continue
        f2 = 'dep_flags_' + other; d2 = 2 if other in FL else 1 if other in F4 + L1 else 0
        kx = [ivar('ix:%d' % z, 0) for z in range(d2)]
        new, o2 = H.now(f2, *kx, g=pre), H.f(f2, *kx)
        if new is o2: continue
        P('flags of %s untouched' % other, eq(new, o2), and_(pre, okr))
    for c in before:
        cc = FALSE
        for name, g, a in R.calls:
            if name == c: cc = or_(cc, g)
        P('%s called before the result is built' % c, cc, and_(g0, built) if kind != 'fl' or c != 'x' else g0)
        if kind == 'fl':
            idx = [z for z, (name, g, a) in enumerate(R.calls) if name == c]; bld = [z for z, (name, g, a) in enumerate(R.calls) if name in build_]
            if idx and bld: ctx.result('%s: %s called first' % (fn, c), prove.Result(min(idx) < min(bld), 'order', 'the result is built before its inputs are refreshed'))
            lay = TRUE
            for name, g, a in R.calls:
                if name == c:
                    z = 1 if c.startswith('update') else 2
                    lay = and_(lay, implies(g, eq(a[z], ix[1])))
            P('%s called for the same layer' % c, lay, and_(g0, built))
    ctx.stat(ex)

def single(ctx, mods, spec):
    """results that are updated in place, one quantity per input: {input: functions that recompute it}, bits cleared only after that"""
    fn, q, kind, cond, groups = spec
    R = guard.Run(mods, fn, inline=('resolve_deps*',))
    H, ex, pre = R.H, R.ex, R.pre; fld = 'dep_flags_' + q
    ix = (R.a.get(1),) if kind else ()
    rng_ = andl([le(ZERO, ix[0]), lt(ix[0], H.f('n_layers'))]) if kind else TRUE
    old = H.f(fld, *ix); smp = iface.sampler(type('S', (), {})(), Api(fn, []))
    g0 = andl([pre, rng_, H.cond(cond), orl(H.sol(x) for x in handle.SOLV)])
    def P(name, c, g): ctx.result('%s: %s' % (fn, name), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    for names, fs in groups:
        for nm, b, c in need(R, *names):
            call = R.called(*fs)
            if call is FALSE: raise Unsupported('no call of %s in %s' % ('/'.join(fs), fn))
            P('%s after a change of %s' % (fs[0], nm), call, andl([g0, c, bit(old, b)]))
    jx = [ivar('ix:%d' % z, 0) for z in range(len(ix))]
    jr = andl([andl([le(ZERO, j), lt(j, H.f('n_layers'))]) for j in jx])
    new, o2 = H.now(fld, *jx, g=andl([pre, jr])), H.f(fld, *jx)
    for b in range(32):
        P('bit %d cleared only of the layer that is updated' % b, implies(and_(bit(o2, b), not_(bit(new, b))), and_(H.cond(cond.split(' & ')[0]), andl(eq(x, y) for x, y in zip(jx, ix)))), andl([pre, jr]))
    for other in ['utaus', 'chapman'] + F4 + L1 + FL:
        if other == q: continue
        kx = [ivar('ix:%d' % z, 0) for z in range(2 if other in FL else 1 if other in F4 + L1 else 0)]
        new, o2 = H.now('dep_flags_' + other, *kx, g=pre), H.f('dep_flags_' + other, *kx)
        P('flags of %s untouched' % other, eq(new, o2), pre)
    ctx.stat(ex)
SINGLE = [('update_opt_props', 'opt_props', 'l', 'DELTA_M', [(['COEF'], ('delta_m_coef',)), (['COEF_L'], ('delta_m_coef', 'delta_m_coef_l')), (['OMEGA'], ('delta_m_omega',)),
             (['OMEGA_L'], ('delta_m_omega', 'delta_m_omega_l')), (['LTAU'], ('delta_m_ltau',)), (['LTAU_L'], ('delta_m_ltau', 'delta_m_ltau_l'))]),
          ('update_utaus', 'utaus', '', 'OUTPUT_AT_TAUS & DELTA_M', [(['UTAUS', 'LTAU', 'COEF'], ('delta_m_ltau',))])]

def polys(ctx, mods, fn):
    """Y_x_get: the polynomials are evaluated again when the flag of the Fourier term is set, and, when they are not kept per term,
    when the workspace holds another term"""
    q = fn[4:]
    R = guard.Run(mods, fn, inline=('resolve_deps*', 'Y_x_get'))
    H, ex, pre = R.H, R.ex, R.pre; m = R.a.get(1)
    g0 = andl([pre, le(ZERO, m), lt(m, H.f('n_four'))])
    old = H.f('dep_flags_' + q, m); order = H.f('order_' + q[2:]); smp = iface.sampler(type('S', (), {})(), Api(fn, []))
    call = R.called('leg_poly_assoc', 'leg_poly_assoc2')
    if call is FALSE: raise Unsupported('no call of leg_poly_assoc* in ' + fn)
    def P(name, c, g): ctx.result('%s: %s' % (fn, name), prove.prove(c, g, R.facts + [le(ic(-1), order)], sampler=smp, seed=ctx.seed))
    for nm, b, c in need(R, *dict(Y_p=['UMUS?!SFI', 'INIT'], Y_0=['MU_0', 'UMUS?!SFI', 'INIT'], Y_u=['UMUS', 'INIT'])[q]):
        P('evaluated after a change of ' + nm, call, andl([g0, c, bit(old, b)]))
    P('evaluated when the workspace holds another term', call, andl([g0, not_(H.opt('SAVE_LEG_POLYS')), not_(eq(order, m))]))
    P('the workspace is labelled with its term', eq(H.now('order_' + q[2:], g=andl([g0, call])), m), and_(g0, call))
    j = ivar('ix:0', 0)
    new, o2 = H.now('dep_flags_' + q, j, g=pre), H.f('dep_flags_' + q, j)
    for b in range(32): P('bit %d cleared only after an evaluation of that term' % b, implies(and_(bit(o2, b), not_(bit(new, b))), and_(call, eq(j, m))), andl([g0, le(ZERO, j), lt(j, H.f('n_four'))]))
    ctx.stat(ex)

def masks(ctx, mods, spec):
    """the mask of a result contains every input it depends on, for every configuration"""
    fn, bits = spec
    R = guard.Run(mods, fn)
    for nm, b, c in need(R, *bits):
        ctx.result('%s: contains %s' % (fn, nm), prove.prove(bit(R.rv, b), and_(R.pre, c), R.facts, sampler=iface.sampler(None, Api(fn, [])), seed=ctx.seed))
    ctx.stat(R.ex)
MASKS = [('utaus_deps', ['UTAUS', 'LTAU', 'COEF']), ('opt_props_deps', ['COEF', 'COEF_L', 'OMEGA', 'OMEGA_L', 'LTAU', 'LTAU_L']), ('chapman_deps', ['MU_0', 'PLANET_R', 'LEVELS_Z']),
         ('beam_params_deps', BEAM), ('Y_p_deps', ['UMUS?!SFI']), ('Y_0_deps', ['MU_0', 'UMUS?!SFI']), ('Y_u_deps', ['UMUS']), ('phase_vecs_deps_q0', ['COEF', 'COEF_L', 'MU_0', 'UMUS?!SFI']),
         ('phase_vecs_deps_u0', ['COEF', 'COEF_L', 'MU_0', 'UMUS']), ('phase_mats_deps_qq', Q), ('phase_mats_deps_uq', ['COEF', 'COEF_L', 'UMUS']), ('local_r_t_u_w_deps', LOC), ('layer_R_T_S_U_W_V_deps', LAYER),
         ('total_R_T_S_U_W_V_deps', LAYER), ('diff_bound_input_deps', BI)]

def varied(ctx, mods, fn):
    """a derivative that becomes active has not been calculated by the earlier solves: the results that keep derivatives are built again"""
    R = guard.Run(mods, fn, inline=('set_deps', 'init_deps')); H = R.H; smp = iface.sampler(None, Api(fn, [])); ok = and_(R.pre, eq0(R.rv))
    if not R.calls: raise Unsupported('no call recognised in ' + fn)
    i, l = ivar('ix:four', 0), ivar('ix:layer', 0)
    four = and_(le(ZERO, i), lt(i, H.f('n_four'))); lay = and_(le(ZERO, l), lt(l, H.f('n_layers')))
    keep = {'opt_props': ['COEF_L', 'OMEGA_L', 'LTAU_L'], 'beam_params': ['LTAU_L'], 'diff_bound_input': [x for x in BI if '_L' in x], 'total_R_T_S_U_W_V': [x for x in LAYER if '_L' in x],
            'layer_R_T_S_U_W_V': [x for x in LAYER if '_L' in x], 'local_r_t_u_w': ['COEF_L', 'OMEGA_L'], 'phase_mats_qq': ['COEF_L'], 'phase_mats_uq': ['COEF_L'], 'phase_vecs_q0': ['COEF_L'], 'phase_vecs_u0': ['COEF_L']}
    for q, names in keep.items():
        ix, rg = ((i, l), and_(four, lay)) if q in FL else ((i,), four) if q in F4 else ((l,), lay)
        new = H.now('dep_flags_' + q, *ix, g=and_(ok, rg))
        for n, b, c in need(R, *names): ctx.result('%s: %s is marked as depending on %s' % (fn, q, n), prove.prove(bit(new, b), andl([ok, c, rg]), R.facts, sampler=smp, seed=ctx.seed))
    ctx.stat(R.ex)

def safe(ctx, name, f, *a):
    import os, traceback
    try: f(ctx, *a)
    except (Unsupported, solve.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, prove.OutOfTime) as e:
        if os.environ.get('VF_TRACE'): traceback.print_exc()
        ctx.undecided(name, '%s: %s' % (type(e).__name__, e))

def run(ctx):
    iface.K(); iface.structs.layouts()
    mods = ctx.load(*api.SRC); mm = ctx.load('src/xrtm_model.c')
    iface.check_all(ctx, mods, api.A, {'deps'})
    items = [(fn, marking, mods, fn) for fn in ('set_deps', 'init_deps')] + [(s[0], guards, mm, s) for s in G] + [(s[0], masks, mm, s) for s in MASKS] + [(s[0], single, mm, s) for s in SINGLE] + [(f, polys, mm, f) for f in ('get_Y_p', 'get_Y_0', 'get_Y_u')]
    items.append(('xrtm_update_varied_layers', varied, mods, 'xrtm_update_varied_layers'))
    # the beam parameters are continued from the first layer whose flag is set, from current optical properties (contracts of C15)
    from props import c15
    mb = ctx.load(*c15.M)
    def beam(c, mods, a):
        b = c15.B(mods, *a); b.posts(c, a[2]); b.fresh(c)
    items += [('beam parameters', beam, mb, (fn, psa, 1, 0)) for fn in ('update_beam_params', 'update_beam_params_all') for psa in (0, 1)]
    ctx.par(items, lambda c, it: safe(c, it[0], it[1], it[2], it[3]))
