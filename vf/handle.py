"""The handle of the model: symbolic xrtm_data object, its representation invariant (well-formedness facts and the
dimension table of every array it owns) and helpers shared by the contracts of the programming interface."""
import re
from . import build, structs, ir, sym, solve, prove
from .terms import *
from .sym import Exec, Fam, Unsupported
from .structs import Struct, base_type, size_of

OPTS = ['CALC_DERIVS', 'REVERSE_DERIVS', 'PSA', 'DELTA_M', 'N_T_TMS', 'OUTPUT_AT_LEVELS', 'OUTPUT_AT_TAUS', 'SOURCE_SOLAR', 'SOURCE_THERMAL', 'SFI', 'VECTOR', 'NO_AZIMUTHAL',
        'TOP_DOWN_ADDING', 'BOTTOM_UP_ADDING', 'SAVE_LEG_POLYS', 'SAVE_PHASE_MATS', 'SAVE_LOCAL_R_T', 'SAVE_LAYER_R_T_S', 'SAVE_TOTAL_R_T_S', 'STACK_REUSE_ADDING',
        'QUAD_NORM_GAUS_LEG', 'QUAD_DOUB_GAUS_LEG', 'QUAD_LOBATTO', 'PHASE_SCALAR', 'PHASE_MATRIX_GC', 'PHASE_MATRIX_LC']
SOLV = ['DOUB_ADD', 'EIG_ADD', 'EIG_BVP', 'MEM_BVP', 'PADE_ADD', 'SINGLE', 'SOS', 'TWO_OS', 'TWO_STREAM', 'FOUR_STREAM', 'SIX_STREAM']
_k = {}
def K():
    if not _k:
        ms = ['XRTM_OPTION_' + x for x in OPTS] + ['XRTM_SOLVER_' + x for x in SOLV] + ['XRTM_SOLVERS_DOUBLING', 'XRTM_SOLVERS_INTERNAL', 'XRTM_SOLVERS_USE_G', 'XRTM_SOLVERS_USE_COEF', 'XRTM_SOLVERS_ADDING',
              'XRTM_INT_ERROR', 'MAX_KERNEL_PARAMS', 'XRTM_KERNEL_USER_DEFINED', 'N_XRTM_KERNEL_TYPES'] + ['DEP_MASK_' + x for x in DEPS]
        _k.update(zip(ms, build.consts(*ms)))
    return _k
DEPS = ['DOUB_D_TAU', 'PADE_PARAMS', 'LAMBDA', 'PLANET_R', 'LEVELS_Z', 'ULEVELS', 'UTAUS', 'UMUS', 'F_ISO_TOP', 'F_ISO_TOP_L', 'F_ISO_BOT', 'F_ISO_BOT_L', 'F_0', 'MU_0', 'PHI_0',
        'LEVELS_B', 'LEVELS_B_L', 'SURFACE_B', 'SURFACE_B_L', 'COEF', 'COEF_L', 'OMEGA', 'OMEGA_L', 'LTAU', 'LTAU_L', 'BRDF', 'BRDF_L', 'MASK', 'INIT']
NPARAMS = [0, 4, 0, 2, 2, 0, 0, 3, 3, 2, 4]      # documented number of parameters of each kernel

# name | condition | dimensions     (the representation invariant of the arrays owned by a handle)
TABLE = """
set_flags_g | INIT | L
set_flags_coef | INIT | L
set_flags_omega | INIT | L
set_flags_ltau | INIT | L
set_flags_kernel_ampfac | INIT & KER | K
set_flags_kernel_params | INIT & KER | K, 4
set_flags_kernel_func | INIT & KER | K
dep_flags_Y_p | | F
dep_flags_Y_0 | | F
dep_flags_Y_u | | F
dep_flags_opt_props | | L
dep_flags_beam_params | | L
dep_flags_diff_bound_input | | F
dep_flags_total_R_T_S_U_W_V | | F
dep_flags_phase_mats_qq | | F, L
dep_flags_phase_mats_uq | | F, L
dep_flags_phase_vecs_q0 | | F, L
dep_flags_phase_vecs_u0 | | F, L
dep_flags_local_r_t_u_w | | F, L
dep_flags_layer_R_T_S_U_W_V | | F, L
qx | | Q+U
qw | | Q+U
qx_v | INTERNAL | (Q+U)*S
qw_v | INTERNAL | (Q+U)*S
alpha1 | INTERNAL & SYM | (Q+U)*S
alpha2 | INTERNAL & SYM | (Q+U)*S
Y_p | COEFS | FS, QX, C2
Y_0 | COEFS | FS, C2
Y_u | COEFS & UMUS | FS, U, C2
kernel_qx | INTERNAL & KER | KQ
kernel_qw | INTERNAL & KER | KQ
levels_z | PSA | L+1
ulevels | | N
utaus | !OUTPUT_AT_LEVELS | N
utaus2 | !OUTPUT_AT_LEVELS | N
utaus20 | !OUTPUT_AT_LEVELS | N
levels_b | SOURCE_THERMAL | L+1
ltau | | L
ttau | OUTPUT_AT_TAUS | L+1
omega | | L
n_coef_layer | COEFS | L
n_coef_layer2 | COEFS | L
coef | COEFS | L, E, C
ltau0 | | L
omega0 | | L
coef0 | COEFS | L, E, C
kernels | KER | K
kernel_ampfac | KER | K
kernel_params | KER | K, 4
kernel_func | KER | K
F_iso_top_l | CALC_DERIVS | D
F_iso_bot_l | CALC_DERIVS | D
levels_b_l | CALC_DERIVS & SOURCE_THERMAL | L+1, D
surface_b_l | CALC_DERIVS & SOURCE_THERMAL | D
ltau_l | CALC_DERIVS | L, D
omega_l | CALC_DERIVS | L, D
coef_l | CALC_DERIVS & COEFS | L, D, E, C
ltau0_l | CALC_DERIVS | L, D
omega0_l | CALC_DERIVS | L, D
coef0_l | CALC_DERIVS & COEFS | L, D, E, C
kernel_ampfac_l | CALC_DERIVS & KER | K, D
kernel_params_l | CALC_DERIVS & KER | K, D, 4
ltau_a | REVERSE_DERIVS | L
omega_a | REVERSE_DERIVS | L
coef_a | REVERSE_DERIVS & COEFS | L, E, C
ltau0_a | REVERSE_DERIVS | L
omega0_a | REVERSE_DERIVS | L
coef0_a | REVERSE_DERIVS & COEFS | L, E, C
kernel_ampfac_a | REVERSE_DERIVS & KER | K
kernel_params_a | REVERSE_DERIVS & KER | K, 4
derivs.layers | CALC_DERIVS | L+1, D
derivs.total | CALC_DERIVS | 1, D
derivs.stacks | CALC_DERIVS | L+1, D
derivs.sources | CALC_DERIVS | L+1, D
derivs.adding_up | CALC_DERIVS | L+1, D
derivs.adding_down | CALC_DERIVS | L+1, D
derivs.beam | CALC_DERIVS & SOURCE_SOLAR | L+1, D
derivs.thermal | CALC_DERIVS & SOURCE_THERMAL | L+1, D
derivs.layers_m | CALC_DERIVS | L+1, D
derivs.total_m | CALC_DERIVS | 1, D
derivs.stacks_m | CALC_DERIVS | L+1, D
derivs.sources_m | CALC_DERIVS | L+1, D
derivs.adding_up_m | CALC_DERIVS | L+1, D
derivs.adding_down_m | CALC_DERIVS | L+1, D
derivs.beam_m | CALC_DERIVS & SOURCE_SOLAR | L+1, D
derivs.thermal_m | CALC_DERIVS & SOURCE_THERMAL | L+1, D
derivs.layers_union | REVERSE_DERIVS | L+1
derivs.total_union | REVERSE_DERIVS | L+1
derivs.stacks_union | REVERSE_DERIVS | L+1
derivs.sources_union | REVERSE_DERIVS | L+1
derivs.beam_union | REVERSE_DERIVS & SOURCE_SOLAR | L+1
derivs.thermal_union | REVERSE_DERIVS & SOURCE_THERMAL | L+1
derivs.adding_up_union | REVERSE_DERIVS | L+1
derivs.adding_down_union | REVERSE_DERIVS | L+1
derivs.layers_m_union | REVERSE_DERIVS | L+1
derivs.total_m_union | REVERSE_DERIVS | L+1
derivs.stacks_m_union | REVERSE_DERIVS | L+1
derivs.sources_m_union | REVERSE_DERIVS | L+1
derivs.beam_m_union | REVERSE_DERIVS & SOURCE_SOLAR | L+1
derivs.thermal_m_union | REVERSE_DERIVS & SOURCE_THERMAL | L+1
derivs.adding_up_m_union | REVERSE_DERIVS | L+1
derivs.adding_down_m_union | REVERSE_DERIVS | L+1
kernel_aux.cos_theta | INTERNAL & KER | Q+U+1
kernel_aux.sin_theta | INTERNAL & KER | Q+U+1
kernel_aux.tan_theta | INTERNAL & KER | Q+U+1
kernel_aux.tan_theta2 | INTERNAL & KER | Q+U+1
kernel_aux.cos_phi | INTERNAL & KER | KQ
kernel_aux.sin_phi | INTERNAL & KER | KQ
kernel_aux.sin_phi2 | INTERNAL & KER | KQ
btau | INTERNAL | L+1
btran | INTERNAL | L+1
as_0 | INTERNAL | L
atran | INTERNAL | L
chapman | INTERNAL | L, L
In_p | INTERNAL | F, (Q+U)*S
I1_m | INTERNAL | F, (Q+U)*S
kernel_f_qq | INTERNAL & KER | 2*KQ+1, QX, QX
kernel_f_q0 | INTERNAL & KER | 2*KQ+1, QX
kernel_f_uq | INTERNAL & KER & SFI & UMUS | 2*KQ+1, U, QX
kernel_f_u0 | INTERNAL & KER & SFI & UMUS | 2*KQ+1, U
btau_l | INTERNAL & CALC_DERIVS | L+1, D
btran_l | INTERNAL & CALC_DERIVS | L+1, D
as_0_l | INTERNAL & CALC_DERIVS | L, D
atran_l | INTERNAL & CALC_DERIVS | L, D
In_p_l | INTERNAL & CALC_DERIVS | F, D, (Q+U)*S
I1_m_l | INTERNAL & CALC_DERIVS | F, D, (Q+U)*S
kernel_f_qq_l | INTERNAL & CALC_DERIVS & KER | D, 2*KQ+1, QX, QX
kernel_f_q0_l | INTERNAL & CALC_DERIVS & KER | D, 2*KQ+1, QX
kernel_f_uq_l | INTERNAL & CALC_DERIVS & KER & SFI & UMUS | D, 2*KQ+1, U, QX
kernel_f_u0_l | INTERNAL & CALC_DERIVS & KER & SFI & UMUS | D, 2*KQ+1, U
btau_a | INTERNAL & REVERSE_DERIVS | L+1
btran_a | INTERNAL & REVERSE_DERIVS | L+1
as_0_a | INTERNAL & REVERSE_DERIVS | L
atran_a | INTERNAL & REVERSE_DERIVS | L
In_p_a | INTERNAL & REVERSE_DERIVS | F, (Q+U)*S
I1_m_a | INTERNAL & REVERSE_DERIVS | F, (Q+U)*S
kernel_f_qq_a | INTERNAL & REVERSE_DERIVS & KER | 2*KQ+1, QX, QX
kernel_f_q0_a | INTERNAL & REVERSE_DERIVS & KER | 2*KQ+1, QX
kernel_f_uq_a | INTERNAL & REVERSE_DERIVS & KER & SFI & UMUS | 2*KQ+1, U, QX
kernel_f_u0_a | INTERNAL & REVERSE_DERIVS & KER & SFI & UMUS | 2*KQ+1, U
"""
def _save():
    """the saved intermediate matrices"""
    out = []
    for dv, dd, cond in (('', '', ''), ('_l', ', D', ' & CALC_DERIVS')):
        for v, vc in (('pp', ''), ('mp', ''), ('mm', ' & VECTOR'), ('pm', ' & VECTOR')):
            out.append('P_qq_%s%s | INTERNAL & SAVE_PHASE_MATS%s%s | F, L%s, QVX, QVX' % (v, dv, vc, cond, dd))
            out.append('P_uq_%s%s | INTERNAL & SAVE_PHASE_MATS & SFI & UMUS%s%s | F, L%s, U*S, QVX' % (v, dv, vc, cond, dd))
        for v in ('mm', 'pm'):
            out.append('P_q0_%s%s | INTERNAL & SAVE_PHASE_MATS%s | F, L%s, QVX' % (v, dv, cond, dd))
            out.append('P_u0_%s%s | INTERNAL & SAVE_PHASE_MATS & SFI & UMUS%s | F, L%s, U*S' % (v, dv, cond, dd))
        for v, vc in (('p', ''), ('m', ' & VECTOR')):
            for m in 'rt': out.append('%s_%s%s | INTERNAL & SAVE_LOCAL_R_T%s%s | F, L%s, QVX, QVX' % (m, v, dv, vc, cond, dd))
        for v in 'pm':
            for m in 'RT':
                out.append('%sl_%s%s | IADD & SAVE_LAYER_R_T_S%s | F, L%s, QVX, QVX' % (m, v, dv, cond, dd))
                out.append('%sa_%s%s | IADD & SAVE_TOTAL_R_T_S%s | F%s, QVX, QVX' % (m, v, dv, cond, dd))
            for m in ('S', 'Sl'):
                out.append('%sl_%s%s | IADD & SAVE_LAYER_R_T_S%s | F, L%s, QVX' % (m, v, dv, cond, dd))
                out.append('%sa_%s%s | IADD & SAVE_TOTAL_R_T_S%s | F%s, QVX' % (m, v, dv, cond, dd))
    out.append('stack_grid | IADD & STACK_REUSE_ADDING | L, L')
    return out
def table():
    out = {}
    for l in TABLE.strip().splitlines() + _save():
        a, b, c = [x.strip() for x in l.split('|')]
        out[a] = (b, [x.strip() for x in c.split(',')])
    return out
DIMS = table()

class Handle:
    """a symbolic handle inside an executor; f() reads fields at entry"""
    def __init__(s, ex, name='d'):
        s.ex = ex; s.d = Struct(name, 'xrtm_data'); s.k = K(); s.t0 = None
    def freeze(s): s.t0 = s.ex.time
    def f(s, field, *ix): return s.d.get(s.ex, field, *ix, time=s.t0)
    def now(s, field, *ix, g=TRUE): return s.d.get(s.ex, field, *ix, g=g)
    def opt(s, n): return not_(eq0(band(s.f('options'), ic(s.k['XRTM_OPTION_' + n]))))
    def sol(s, n):
        k = s.k.get('XRTM_SOLVER_' + n, s.k.get('XRTM_SOLVERS_' + n))
        return not_(eq0(band(s.f('solvers'), ic(k))))
    def sym(s, n):
        """symbols of the dimension table"""
        f = s.f
        if n.isdigit(): return ic(int(n))
        if n == 'S': return f('n_stokes')
        if n == 'FS': return ite(s.opt('SAVE_LEG_POLYS'), f('n_four'), ONE)
        m = dict(L='n_layers', D='n_derivs', K='n_kernels', E='n_elem', C='n_coef', C2='n_coef2', F='n_four', Q='n_quad', U='n_umus', N='n_ulevels', KQ='n_kernel_quad', QX='n_quad_x', QVX='n_quad_v_x')
        return f(m[n])
    def dim(s, e):
        """expression over the symbols: sums and products"""
        toks = re.findall(r'[A-Z0-9]+|[()+*]', e); pos = [0]
        def atom():
            t = toks[pos[0]]; pos[0] += 1
            if t == '(':
                v = expr(); pos[0] += 1; return v
            return s.sym(t)
        def term():
            v = atom()
            while pos[0] < len(toks) and toks[pos[0]] == '*': pos[0] += 1; v = mul(v, atom())
            return v
        def expr():
            v = term()
            while pos[0] < len(toks) and toks[pos[0]] == '+': pos[0] += 1; v = add(v, term())
            return v
        return expr()
    def cond(s, c):
        g = TRUE
        for w in [x.strip() for x in c.split('&') if x.strip()]:
            neg = w.startswith('!'); w = w.lstrip('!')
            if w == "DOUB": t = s.sol("DOUB_ADD")
            elif w == "PADE": t = s.sol("PADE_ADD")
            elif w == "INIT": t = not_(eq0(s.f('inputs_initialized')))
            elif w == 'KER': t = lt(ZERO, s.f('n_kernels'))
            elif w == 'UMUS': t = lt(ZERO, s.f('n_umus'))
            elif w == 'INTERNAL': t = s.sol('INTERNAL')
            elif w == 'COEFS': t = s.sol('USE_COEF')
            elif w == 'IADD': t = not_(eq0(band(s.f('solvers'), ic(s.k['XRTM_SOLVERS_INTERNAL'] & s.k['XRTM_SOLVERS_ADDING']))))
            elif w == 'SYM': t = not_(eq0(s.f('misc_input.use_symmetric_form')))
            else: t = s.opt(w)
            g = and_(g, not_(t) if neg else t)
        return g
    def wf(s):
        """well-formedness of an accepted configuration (established by creation, see C03)"""
        f = s.f; out = []
        for n, lo in (('n_layers', 1), ('n_quad', 1), ('n_derivs', 0), ('n_umus', 0), ('n_ulevels', 1), ('n_kernels', 0), ('n_coef', 0), ('n_coef2', 0), ('n_four', 1), ('n_stokes', 1), ('n_theta_0s', 1), ('n_kernel_quad', 0)):
            out.append(le(ic(lo), f(n)))
        out.append(or_(eq(f('n_elem'), ONE), eq(f('n_elem'), ic(6))))
        out.append(le(f('n_coef2'), f('n_coef')))
        out.append(le(f('n_stokes'), ic(4)))
        out.append(or_(s.opt('CALC_DERIVS'), eq0(f('n_derivs'))))
        out.append(eq(f('n_quad_v'), mul(f('n_quad'), f('n_stokes'))))
        out.append(eq(f('n_umus_v'), mul(f('n_umus'), f('n_stokes'))))
        out.append(implies(lt(ZERO, f('n_kernels')), lt(ZERO, f('n_kernel_quad'))))
        out.append(or_(and_(s.opt('OUTPUT_AT_LEVELS'), not_(s.opt('OUTPUT_AT_TAUS'))), and_(not_(s.opt('OUTPUT_AT_LEVELS')), s.opt('OUTPUT_AT_TAUS'))))
        i = bound_var(); out.append(('all', [i], and_(le(ZERO, f('n_coef_layer', i)), le(f('n_coef_layer', i), f('n_coef')))))
        i = bound_var(); out.append(('all', [i], and_(le(ZERO, f('kernels', i)), lt(f('kernels', i), ic(11)))))
        return out
    def field_of(s, fam):
        """(field, depth) of a family reachable from the handle"""
        depth = 0; x = fam
        while x is not None and x is not s.d.fam:
            depth += 1; y = x; x = x.parent
        if x is None: return None
        if depth == 0: return ('', 0)
        for r, c in s.d.fam.children.items():
            if c is y0(fam, s.d.fam): return (s.d.fam.ctype(r), depth)
        return None
    def setup_umus(s):
        ex = s.ex
        q = s.d.get(ex, 'qx'); ex.store(s.d.addr('umus'), ir.PTR, ex.padd(q, scale(8, s.d.get(ex, 'n_quad'))), TRUE)
        q = s.d.get(ex, 'qx_v'); ex.store(s.d.addr('umus_v'), ir.PTR, ex.padd(q, scale(8, s.d.get(ex, 'n_quad_v'))), TRUE)
def y0(fam, root):
    x = fam
    while x.parent is not root: x = x.parent
    return x
