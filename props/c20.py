"""C20: the wrappers of the other languages hand every argument on unchanged.
The native interface (names, order, types and array dimensions of the arguments) is written down in c20_*.def.  Every wrapper is
executed symbolically: on every path it makes exactly one call of the native function of its name, on its own handle, with its own
arguments in order; arrays of rank two and more are index tables over the caller's memory with the documented dimensions; the native
result is returned, or its error reported.  The dimensions are expressions of C: they are compiled and executed by the same engine."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from props import c20_native
from vf import guard, prove, build, ir, prop
from vf import terms as TM
from vf.terms import *
from vf.sym import Fam, Unsupported
import sys
FLOOR = 1200
NAME = 'language wrappers'
HERE = os.path.dirname(os.path.abspath(__file__))
LANG = [('cpp', 'xrtm', 'interfaces/xrtm_int_cpp.cpp'), ('cpp', 'xrtm_fd', 'interfaces/xrtm_fd_int_cpp.cpp'), ('f77', 'xrtm', 'interfaces/xrtm_int_f77_util.c'), ('f77', 'xrtm_fd', 'interfaces/xrtm_fd_int_f77_util.c'),
        ('f90', 'xrtm', 'interfaces/xrtm_int_f90_util.c'), ('f90', 'xrtm_fd', 'interfaces/xrtm_fd_int_f90_util.c'), ('jl', 'xrtm', 'interfaces/xrtm_int_jl_util.c')]
IERR = ic(-2147483647); DERR = dc(Fraction(-sys.float_info.max))

class Arg: pass
def spec(prefix):
    out = {}
    for l in open(os.path.join(HERE, 'c20_%s.def' % prefix)):
        m = re.match(r'subprogram_(init|free|general)\s+(.*);\s*$', l)
        if not m: continue
        parts = [p.strip() for p in re.findall(r'(?:[^,"]|"[^"]*")+', m.group(2))]
        h = re.match(r'(enum )?(\w+) 0 (\w+)\s+(\d)', parts[0]); assert h, l
        S = Arg(); S.kind = m.group(1); S.ret = 'd' if h.group(2) == 'double' else 'i'; S.name = h.group(3); S.flag = h.group(4) == '1'; S.args = []
        for p in parts[1:]:
            a = re.match(r'(enum )?(\w+) (\d)\s+((?:"[^"]*"\s*)*)(\w+) (in|out)', p); assert a, p
            A = Arg(); A.ty = 'i' if a.group(1) else {'int': 'i', 'double': 'd'}.get(a.group(2), 'p'); A.cxx = a.group(2); A.rank = int(a.group(3)); A.dims = re.findall(r'"([^"]*)"', a.group(4)); A.name = a.group(5); A.io = a.group(6)
            A.ptr = A.rank > 0 or A.io == 'out' or A.ty == 'p'; S.args.append(A)
        out[S.name] = S
    return out

def oracle(lang, prefix, SP):
    """the dimensions and, for arguments passed by reference, the values: one C function each, with the parameters of the wrapper"""
    ct = {'i': 'int', 'd': 'double', 'p': 'void'}; t = '#include <gutil.h>\n#include <xrtm_interface.h>\n' + ('#include <xrtm_fd_interface.h>\n' if prefix == 'xrtm_fd' else '')
    for S in SP.values():
        ps = ['%s_data *d' % prefix]; pre = ''
        for A in S.args:
            if A.ptr: ps.append('void *%s' % A.name)
            elif lang == 'f77': ps.append('%s *%s_' % (ct[A.ty], A.name)); pre += '%s %s = *%s_; ' % (ct[A.ty], A.name, A.name)
            else: ps.append('%s %s' % (ct[A.ty], A.name))
        ps = ', '.join(ps)
        for k, A in enumerate(S.args):
            if not A.ptr and lang == 'f77': t += '%s o_%s_%d(%s) { %sreturn %s; }\n' % (ct[A.ty], S.name, k, ps, pre, A.name)
            if A.rank > 1 or lang == 'jl':
                for j, e in enumerate(A.dims): t += 'int o_%s_%d_%d(%s) { %sreturn %s; }\n' % (S.name, k, j, ps, pre, e)
    f = os.path.join(build.scratch(), 'oracle_%s_%s.c' % (lang, prefix)); open(f, 'w').write(t)
    return ir.parse_module(build.compile_ll(f))

NP = {'kernel_n_params': lambda s, g, a: app('kernel_n_params', (a[0],), 'i')}
def execute(M, fn, over=None, result=None):
    return guard.Run([M], fn, opaque=False, wf=False, over=over, result=dict(NP, **(result or {})))
def fam0(lang): return {0: lambda s: ptr(Fam('this' if lang == 'cpp' else 'd'))}
TAB = re.compile(r'array_from_mem(\d)_(\w+)$')

def wrapper(ctx, lang, prefix, M, O, S, fn):
    nat = prefix + '_' + S.name; tabs = {}; last = []
    def table(s, g, a):
        f = Fam('table%d' % len(tabs)); tabs[f] = (s.calls[-1][0], a, g); return ptr(f)
    res = {nat: lambda s, g, a: dvar('r') if S.ret == 'd' else ivar('r')}
    for k in range(2, 6): res['array_from_mem%d_d' % k] = table
    R = execute(M, fn, fam0(lang), res)
    smp = None; P = lambda n, c, g=TRUE: ctx.result('%s: %s' % (fn if lang != 'cpp' else DEM[fn], n), prove.prove(c, g, R.facts, seed=ctx.seed))
    V = lambda n, d: ctx.violation('%s: %s' % (fn if lang != 'cpp' else DEM[fn], n), d)
    foreign = [c for c in R.calls if c[0].startswith(('xrtm_',)) and c[0] != nat and not re.match(r'xrtm_\w+_(to_\w+)$', c[0])]
    if foreign: V('no other native call', 'calls %s' % foreign[0][0])
    mine = [c for c in R.calls if c[0] == nat]
    if len(mine) > 1: raise Unsupported('several calls of ' + nat)
    if not mine: V('the native function of its name is called', 'no call of %s' % nat); return
    _, g, a = mine[0]
    P('the native function is called on every path', g)
    if len(a) != len(S.args) + 1: V('number of arguments', '%d arguments instead of %d' % (len(a), len(S.args) + 1)); return
    P('the handle is passed on', peq(a[0], R.a[0]))
    PS = lambda k: R.a[k + 1]
    def orc(name):
        if name not in O.funcs: raise Unsupported('no oracle ' + name)
        q = execute(O, name, {0: lambda s: ptr(Fam('d'))}); return q.rv
    for k, A in enumerate(S.args):
        v = a[k + 1]; lab = 'argument %d (%s)' % (k + 1, A.name)
        if k + 1 not in R.a: V(lab, 'the wrapper has fewer parameters'); continue
        if not A.ptr:
            want = orc('o_%s_%d' % (S.name, k)) if lang == 'f77' else PS(k)
            if want.s != v.s: V(lab, 'type'); continue
            ctx.result('%s: %s is passed on unchanged' % (fn if lang != 'cpp' else DEM[fn], lab), prove.prove_eq(v, want, TRUE, R.facts, ctx.seed))
        elif A.rank < 2 or lang == 'cpp': P(lab + ' is passed on unchanged', peq(v, PS(k)))
        else:
            if v.op != 'ptr' or v.a[0] not in tabs:
                P(lab + ': an index table over the array of the caller', peq(v, PS(k))); continue       # refuted, or the array itself
            nm, ta, tg = tabs[v.a[0]]; m = TAB.match(nm)
            if int(m.group(1)) != A.rank: V(lab + ': rank', '%s for rank %d' % (nm, A.rank)); continue
            P(lab + ': the table refers to the array of the caller', peq(ta[0], PS(k)))
            for j in range(A.rank): P('%s: dimension %d' % (lab, j + 1), eq(ta[1 + j], orc('o_%s_%d_%d' % (S.name, k, j))))
    fr = [c for ev in R.ex.events if ev[0] == 'call' for c in [ev]]
    pos = [i for i, ev in enumerate(fr) if ev[2] == nat][0]
    for i, ev in enumerate(fr):
        if ev[2].startswith('free') and i < pos: V('the tables live until the call returns', '%s before the call' % ev[2])
    r = dvar('r') if S.ret == 'd' else ivar('r'); err = deq(r, DERR) if S.ret == 'd' else eq(r, IERR)
    if lang == 'cpp':
        th = FALSE
        for ev in R.ex.events:
            if ev[0] == 'call' and ev[2] == '__cxa_throw': th = or_(th, ev[1])
        P('an error is thrown', th, err); P('nothing else is thrown', not_(th), not_(err))
        if S.flag:
            if R.rv is None: V('the value is returned', 'no return value')
            else: ctx.result('%s: the value is returned' % DEM[fn], prove.prove_eq(R.rv, r, not_(err), R.facts, ctx.seed))
    else:
        if R.rv is None: V('the status is returned', 'no return value')
        elif S.flag: ctx.result('%s: the value is returned' % fn, prove.prove_eq(R.rv, r, TRUE, R.facts, ctx.seed))
        else: P('an error is returned as one', not_(eq0(R.rv)), err); P('success is returned as success', eq0(R.rv), eq0(r))

def julia(ctx, M, O, S, A, k, fn):
    R = execute(M, fn, fam0('c'))
    last = R.a[max(R.a)]
    for j in range(A.rank):
        got = R.ex.load(ptr(last.a[0], last.a[1], add(last.a[2], ic(8*j))), ir.I64, TRUE)
        q = execute(O, 'o_%s_%d_%d' % (S.name, k, j), {0: lambda s: ptr(Fam('d'))})
        ctx.result('%s: dimension %d' % (fn, j + 1), prove.prove(eq(got, q.rv), TRUE, R.facts, seed=ctx.seed))
    ctx.result('%s: success' % fn, prove.prove(eq0(R.rv), TRUE, R.facts, seed=ctx.seed))

DEM = {}
def demangle(names):
    r = subprocess.run(['c++filt'] + names, capture_output=True, text=True) if names else None
    return dict(zip(names, r.stdout.splitlines())) if r else {}
def search():
    """every wrapper, natively: '' or what fails; None when it could not be run"""
    misc = ['misc/gutil_alloc.c', 'misc/gutil_error.c']; out = []; ran = 0
    jobs = []
    for lang, prefix, src in LANG:
        if lang == 'jl': continue
        SP = spec(prefix); T = open(os.path.join(build.REPO, src)).read(); wn = {}
        for n, S in SP.items():
            m = re.search(r'\b%s_%s_bindx_%s\(' % (prefix, n, 'f77_' if lang == 'f77' else lang), T, re.I)
            wn[n] = n if lang == 'cpp' else m.group(0)[:-1] if m else None
        jobs.append((lang, prefix, SP, src, wn, misc))
        if lang == 'f77': jobs.append(('for', prefix, SP, src, {n: ('%s_%s_f77_' % (prefix, n)).lower() for n in SP if wn[n]}, misc + [src.replace('_util.c', '.f')]))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(trial, jobs))
    for j, r in zip(jobs, res):
        if r is None: continue
        ran += 1
        if r: out += ['%s/%s: %s' % (j[0], j[1], l) for l in r]
    return '\n'.join(out[:20]) if out else '' if ran == len(jobs) else None
def trial(j):
    try: rc, fails, d = c20_native.build_run(*j)
    except Exception as e: print('NOTE %s %s: %s' % (j[0], j[1], str(e)[-300:])); return None
    return fails or (['the program ended with %d' % rc] if rc else [])
prop.NATIVE['C20'] = search

def run(ctx):
    jobs = []
    for lang, prefix, src in LANG:
        SP = spec(prefix)
        try: M = ctx.load(src)[0]; O = oracle(lang, prefix, SP)
        except RuntimeError as e: ctx.undecided(src, str(e)[-200:]); continue
        fns = list(M.funcs)
        if lang == 'cpp':
            dm = demangle(fns); DEM.update(dm); cls = prefix + '_int_cpp'
            by = {}
            for f, d in dm.items():
                m = re.match(r'%s::(~?\w+)\(' % cls, d)
                if m:
                    n = m.group(1); n = 'create' if n == cls else 'destroy' if n == '~' + cls else n
                    if n == 'create' and len(M.funcs[f].params) < 3: continue
                    if 'C1' in f or 'D1' in f or 'D0' in f: continue      # aliases of the base object forms
                    by[n] = f
            cand = {n: by.get(n) for n in SP}
        elif lang == 'f77': cand = {n: next((f for f in fns if f.lower() == ('%s_%s_bindx_f77_' % (prefix, n)).lower()), None) for n in SP}
        elif lang == 'f90': cand = {n: next((f for f in fns if f.lower() == ('%s_%s_bindx_f90' % (prefix, n)).lower()), None) for n in SP if any(A.rank > 1 for A in SP[n].args)}
        else:
            for n, S in SP.items():
                for k, A in enumerate(S.args):
                    f = '%s_%s_dims' % (n, A.name)
                    if f in M.funcs: jobs.append(('jl', prefix, M, O, S, A, k, f))
            continue
        for n, f in cand.items():
            if f is None: ctx.undecided('%s: %s' % (os.path.basename(src), n), 'no wrapper found'); continue
            jobs.append((lang, prefix, M, O, SP[n], f))
    def one(c, j):
        nm = j[-1]
        try:
            if j[0] == 'jl': julia(c, *j[2:])
            else: wrapper(c, *j)
        except (Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            if os.environ.get('VF_TRACE'): import traceback; traceback.print_exc()
            c.undecided(DEM.get(nm, nm), '%s: %s' % (type(e).__name__, e))
        c.functions.add(nm)
    ctx.par(jobs, one)
    ctx.run_native('the wrappers linked with recording stand-ins of the native functions', '60 calls of every wrapper of C++, Fortran 77 (its Fortran side included) and Fortran 90 (C side), random dimensions and arguments, success and error')
    ctx.assume('array_from_memK_d returns index tables over the memory it is given (property C10)')
    ctx.assume('the interface definition c20_*.def (a copy of the definition files of the repository with corrected dimensions) states the native argument lists; the Fortran 90 module, IDL and Python sides of the wrappers are not covered; the Fortran 77 side is only exercised natively (bounded)')
