"""C05: a solve is refused until every required input is set.
 1. the gate (check_inputs_initialized): it lets a request through exactly when every input that the configuration requires is
    marked as set, and only then is the configuration recorded as complete;
 2. the preprocessing step and every entry point: the solver is reached only when the gate is open, and a refusal is an error;
 3. set calls: an accepted call marks exactly its own input, a refused call marks nothing; create starts with nothing marked."""
from props import api
from props.c06 import safe
from vf import iface, guard, handle, prove, solve
from vf.terms import *
from vf.handle import K, Handle
from vf.iface import Api
from vf.sym import Unsupported
FLOOR = 150
nz = lambda t: not_(eq0(t))
def required(H):
    """[(label, condition that the input is required, flag)] for the inputs of the whole configuration"""
    f, o, s = H.f, H.opt, H.sol; fl = lambda n, *ix: f('set_flags_' + n, *ix)
    return [('doub_d_tau', s('DOUB_ADD'), fl('doub_d_tau')), ('pade_params', s('PADE_ADD'), fl('pade_params')), ('sos_params', s('SOS'), fl('sos_params')), ('fourier_tol', TRUE, fl('fourier_tol')),
        ('planet_r', o('PSA'), fl('planet_r')), ('levels_z', o('PSA'), fl('levels_z')), ('out_levels', o('OUTPUT_AT_LEVELS'), fl('ulevels')), ('out_taus', o('OUTPUT_AT_TAUS'), fl('utaus')),
        ('out_thetas', lt(ZERO, f('n_umus')), fl('umus')), ('F_iso_top', TRUE, fl('F_iso_top')), ('F_iso_bot', TRUE, fl('F_iso_bot')), ('F_0', o('SOURCE_SOLAR'), fl('F_0')), ('theta_0', o('SOURCE_SOLAR'), fl('mu_0')),
        ('phi_0', o('SOURCE_SOLAR'), fl('phi_0')), ('levels_b', o('SOURCE_THERMAL'), fl('levels_b')), ('surface_b', o('SOURCE_THERMAL'), fl('surface_b'))]
def required_ix(H, i, j):
    """the inputs per layer, kernel and kernel parameter: (label, range, flag)"""
    L, N = H.f('n_layers'), H.f('n_kernels'); f = H.f; inb = lambda x, n: and_(le(ZERO, x), lt(x, n))
    kn = f('kernels', i)
    return [(n, inb(i, L), f('set_flags_' + n, i)) for n in ('coef', 'omega', 'ltau')] + [('kernel_ampfac', inb(i, N), f('set_flags_kernel_ampfac', i)),
        ('kernel_params', and_(inb(i, N), inb(j, api.npar(kn))), f('set_flags_kernel_params', i, j)), ('kernel_func', and_(inb(i, N), eq(kn, ic(K()['XRTM_KERNEL_USER_DEFINED']))), f('set_flags_kernel_func', i))]
NP = {'kernel_n_params': lambda s, g, a: api.npar(a[0])}
def kern(R):
    H = R.H
    def k(i):
        t = H.f('kernels', i)
        return [or_(not_(and_(le(ZERO, i), lt(i, H.f('n_kernels')))), and_(le(ZERO, t), lt(t, ic(K()['N_XRTM_KERNEL_TYPES']))))]
    return k
def gate(ctx, mods, fn):
    R = guard.Run(mods, fn, result=NP, opaque=False, requires=lambda s: [orl(s.H.sol(x) for x in handle.SOLV), eq(s.H.f('inputs_initialized'), ONE)])
    H = R.H; pre = R.pre; smp = smp_()
    if R.rv is None or R.rv.s != 'i': raise Unsupported('no status returned')
    ok = eq0(R.rv); i, j = ivar('ix:0', 0), ivar('ix:1', 0); kd = kern(R)(i)[0]
    def P(n, c, g): ctx.result('%s: %s' % (fn, n), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    allset = TRUE
    for n, c, f in required(H):
        P('refused while %s is not set' % n, not_(ok), andl([pre, c, eq0(f)])); allset = and_(allset, implies(c, nz(f)))
    for n, c, f in required_ix(H, i, j):
        P('refused while %s is not set' % n, not_(ok), andl([pre, c, kd, eq0(f)]))
    ALL = lambda n, c: forall_(n, c)
    L, N = H.f('n_layers'), H.f('n_kernels')
    from props.api import all_
    per = andl([all_(L, lambda k: andl(nz(H.f('set_flags_' + n, k)) for n in ('coef', 'omega', 'ltau'))),
                all_(N, lambda k: and_(nz(H.f('set_flags_kernel_ampfac', k)), implies(eq(H.f('kernels', k), ic(K()['XRTM_KERNEL_USER_DEFINED'])), nz(H.f('set_flags_kernel_func', k))))),
                all_(N, lambda k: andl(implies(lt(ic(p), api.npar(H.f('kernels', k))), nz(H.f('set_flags_kernel_params', k, ic(p)))) for p in range(4)))])
    for b in (False, True):      # one case without and one with kernels
        P('let through when every required input is set%s' % (', with a surface' if b else ''), ok, andl([pre, allset, per, lt(ZERO, N) if b else eq0(N)]))
    st = H.now('inputs_initialized', g=pre)
    P('complete after it was let through', eq0(st), and_(pre, ok))
    P('not complete after a refusal', eq(st, H.f('inputs_initialized')), and_(pre, not_(ok)))
    fr = R.called('free_array1_uc', 'free_array2_uc', 'free', 'free_array1', 'free_array2')
    P('the marks are kept after a refusal', not_(fr), and_(pre, not_(ok)))
    for n, _, _ in required(H):
        n = {'out_levels': 'ulevels', 'out_taus': 'utaus', 'out_thetas': 'umus', 'theta_0': 'mu_0'}.get(n, n)
        P('mark of %s not changed' % n, eq(H.now('set_flags_' + n, g=pre), H.f('set_flags_' + n)), pre)
    ctx.stat(R.ex)
def smp_(): return iface.sampler(type('S', (), {})(), Api('x', []))

def preprocess(ctx, mods, fn):
    """0 exactly when the gate is open (or opens now), the final checks pass and the derivative tables are up to date"""
    R = guard.Run(mods, fn, result={'check_inputs_initialized': lambda s, g, a: ivar('gate'), 'check_inputs_post_checks': lambda s, g, a: ivar('final')}, opaque=False)
    H = R.H; pre = R.pre; smp = smp_()
    def P(n, c, g): ctx.result('%s: %s' % (fn, n), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    calls = R.called('check_inputs_initialized', 'solution_preprocess')
    if calls is FALSE: raise Unsupported('check_inputs_initialized is not called by ' + fn)
    init = nz(H.f('inputs_initialized')); ok = eq0(R.rv); gate, final = ivar('gate'), ivar('final'); old = nz(H.f('varied_layers_updated'))
    P('refused when the gate refuses', not_(ok), andl([pre, init, nz(gate)]))
    P('the gate is asked until it has opened', calls, and_(pre, init))
    P('refused when the final checks fail', not_(ok), andl([pre, nz(final)]))
    P('refused while the derivative tables are out of date', not_(ok), andl([pre, H.opt('CALC_DERIVS'), old]))
    P('let through otherwise', ok, andl([pre, or_(not_(init), eq0(gate)), eq0(final), or_(not_(H.opt('CALC_DERIVS')), not_(old))]))
    for nm, g, a in R.calls:
        if nm.startswith('check_inputs'): P('%s asked about this configuration' % nm, peq(a[0], H.d.base), and_(pre, g))
    ctx.stat(R.ex)

def entry(ctx, mods, spec):
    """nothing is calculated before the request has been let through, and a refusal is an error"""
    fn, work, asked = spec
    R = guard.Run(mods, fn, result={asked: lambda s, g, a: ivar('gate')}, opaque=False if fn == 'xrtm_solution' else 2)
    H = R.H; pre = R.pre; smp = smp_()
    def P(n, c, g): ctx.result('%s: %s' % (fn, n), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    w = R.called(*work); q = R.called(asked); gate = ivar('gate')
    if w is FALSE: raise Unsupported('the work of %s is not recognised' % fn)
    if q is FALSE: ctx.result('%s: the request is checked' % fn, prove.Result(False, 'calls', '%s is never called' % asked)); return
    must = TRUE if asked == 'solution_preprocess' else nz(H.f('inputs_initialized'))
    P('the request is checked before anything is calculated', q, andl([pre, w, must]))
    P('nothing is calculated for a refused request', not_(w), andl([pre, must, nz(gate)]))
    if R.rv is not None and R.rv.s == 'i':
        P('a refused request is an error', nz(R.rv), andl([pre, q, nz(gate)]))
        P('an accepted request reaches the calculation', w, andl([pre, eq0(R.rv)]))
    i0 = [z for z, c in enumerate(R.calls) if c[0] == asked]; i1 = [z for z, c in enumerate(R.calls) if c[0] in work]
    ctx.result('%s: checked first' % fn, prove.Result(min(i0) < min(i1), 'order', 'calculation starts before the check'))
    for nm, g, a in R.calls:
        if nm == asked: P('this configuration is checked', peq(a[0], H.d.base), and_(pre, g))
    if fn == 'xrtm_update_varied_layers':
        new = H.now('varied_layers_updated', g=pre)
        P('the tables are recorded as up to date', eq0(new), andl([pre, eq0(R.rv)]))
        P('the tables stay out of date after a refusal', eq(new, H.f('varied_layers_updated')), andl([pre, must, nz(gate)]))
        old = nz(H.f('inputs_initialized')); P('the gate is not asked again once it is open', not_(q), and_(pre, not_(old)))
    ctx.stat(R.ex)
ENTRY = [('xrtm_solution', ('get_solution',), 'solution_preprocess'), ('xrtm_update_varied_layers', ('build_derivs_layers',), 'check_inputs_initialized')]

def create(ctx, mods, fn):
    """a new handle has nothing marked as set"""
    R = guard.Run(mods, fn, opaque=2, wf=False); H = R.H; ok = and_(R.pre, eq0(R.rv)); smp = smp_()
    if R.called("init_array1_uc") is FALSE: raise Unsupported("the initialisation of the marks is not recognised")
    def P(n, c, g): ctx.result('%s: %s' % (fn, n), prove.prove(c, g, R.facts, sampler=smp, seed=ctx.seed))
    P('the gate is closed', nz(H.now('inputs_initialized', g=ok)), ok)
    P('the derivative tables are out of date', nz(H.now('varied_layers_updated', g=ok)), ok)
    n2 = {'out_levels': 'ulevels', 'out_taus': 'utaus', 'out_thetas': 'umus', 'theta_0': 'mu_0'}
    for n, _, _ in required(H): P('%s is not marked' % n, eq0(H.now('set_flags_' + n2.get(n, n), g=ok)), ok)
    n1 = lambda a: eq(a[1], H.now('n_layers', g=ok)); nk = lambda a: eq(a[1], H.now('n_kernels', g=ok))
    for n, f, dim, c in [(x, 'init_array1_uc', n1, TRUE) for x in ('g', 'coef', 'omega', 'ltau')] + [(x, 'init_array%d_uc' % d, nk, lt(ZERO, H.now('n_kernels', g=ok))) for x, d in (('kernel_ampfac', 1), ('kernel_params', 2), ('kernel_func', 1))]:
        P('%s is not marked for any layer, kernel or parameter' % n, R.called(f, args=lambda a: andl([peq(a[0], H.d.get(R.ex, 'set_flags_' + n, g=ok)), dim(a), eq0(a[-1])])), and_(ok, c))
    ctx.stat(R.ex)

def run(ctx):
    iface.K(); iface.structs.layouts()
    mods = ctx.load(*api.SRC)
    iface.check_all(ctx, mods, api.A, {'flags'})
    items = [('check_inputs_initialized', gate, mods, 'check_inputs_initialized'), ('solution_preprocess', preprocess, mods, 'solution_preprocess')] + [(e[0], entry, mods, e) for e in ENTRY]
    items.append(('xrtm_create_misc', create, mods, 'xrtm_create_misc'))
    ctx.par(items, lambda c, it: safe(c, it[0], it[1], it[2], it[3]))
