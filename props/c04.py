"""C04: names and codes are mutually inverse.
 1. lookups in the shipped tables: the interface functions, everything they call inlined, executed on every table entry (the tables
    are finite, so this covers every code) and on a symbolic code or name outside the table;
 2. the oracle for "the right name": the enumeration constant of the public headers with that name;
 3. the generic lookup functions of misc/gindex_name_value.c on a table of unbounded symbolic size."""
from vf import build, ir, solve, prove
from vf.terms import *
from vf.sym import Exec, Fam, Unsupported
from vf.externs import cstring
from props.c06 import safe
FLOOR = 300
# family, table kind, prefix of the public constant, source, first index with a name
FAM = [('xrtm_option', 'mask', 'XRTM_OPTION_', 0), ('xrtm_solver', 'mask', 'XRTM_SOLVER_', 0), ('xrtm_output', 'mask', 'XRTM_OUTPUT_', 0),
       ('xrtm_kernel', 'value', 'XRTM_KERNEL_', 0), ('xrtm_fd_method', 'value', 'XRTM_FD_METHOD_', 0), ('eigen_solver_gen_real', 'value', 'EIGEN_SOLVER_GEN_REAL_', 0),
       ('eigen_solver_gen_complex', 'value', 'EIGEN_SOLVER_GEN_COMPLEX_', 0)]
SRC = ['src/xrtm_interface.c', 'src/xrtm_support.c', 'src/xrtm_brdf.c', 'src/xrtm_fd_interface.c', 'misc/gindex_name_value.c']
INC = ['xrtm_interface.h', 'xrtm_fd_interface.h', 'xrtm_brdf.h', 'xrtm_eig_util.h']

def strcmp_contract(ex, g, a, I):
    """equal names compare equal; a name that is not in a table differs from every name of the table"""
    x, y = cstring_or(ex, a[0], g), cstring_or(ex, a[1], g)
    if x[0] == 'str' and y[0] == 'str': return ic((x[1] > y[1]) - (x[1] < y[1]))
    ks = sorted([str(x), str(y)])
    if x == y: return ZERO
    v = ivar('strcmp:%s:%s' % tuple(ks))
    return v
def strncmp_contract(ex, g, a, I):
    x, y = cstring_or(ex, a[0], g), cstring_or(ex, a[1], g)
    if x[0] != 'str' or y[0] != 'str' or a[2].op != 'c': raise Unsupported('comparison of parts of strings')
    p, q = x[1][:a[2].a[0]], y[1][:a[2].a[0]]; return ic((p > q) - (p < q))
def strcase_contract(ex, g, a, I):
    x, y = cstring_or(ex, a[0], g), cstring_or(ex, a[1], g)
    if x[0] != 'str' or y[0] != 'str': raise Unsupported('comparison of strings without case')
    p, q = x[1].lower(), y[1].lower(); return ic((p > q) - (p < q))
def cstring_or(ex, p, g):
    if p.op == 'ptr' and getattr(p.a[0], 'is_global', False):
        s = cstring(ex, p, g)
        if s is not None: return ('str', s)
    if p.op == 'ptr' and not p.a[1] and p.a[2] is ZERO: return ('obj', p.a[0].name)
    raise Unsupported('comparison of an unknown string')

def call(mods, fn, args, facts=(), g=TRUE, unroll=False):
    ex = Exec(mods); ex.force_unroll = unroll; ex.contracts = {'strcmp': strcmp_contract, 'strncmp': strncmp_contract, 'strcasecmp': strcase_contract}
    F = ex.funcs.get(fn)
    if F is None: raise Unsupported('no function ' + fn)
    if len(F.params) != len(args): raise Unsupported('parameters of %s changed' % fn)
    ex.facts = list(facts); ex.solver = solve.make_solver(list(facts))
    ex.dead = []
    args = [a(ex) if callable(a) else a for a in args]
    r = ex.exec_function(F, args, g)
    return ex, r
def string_arg(text):
    def mk_(ex):
        f = Fam('str:' + text); f.is_global = True; b = text.encode() + b'\0'
        f.const = True; f.S = 1; f.ginit = (ex.mods[0], ir.Ty('arr', len(b), ir.I8), ('str', b))
        return ptr(f)
    return mk_

def family(ctx, mods, spec):
    fam, kind, prefix, first = spec
    code = 'mask' if kind == 'mask' else 'value'
    ex, n = call(mods, fam + '_n', [])
    if n.op != 'c': raise Unsupported('size of the table of ' + fam)
    n = n.a[0]; names = []; vals = []
    def ob(name, ok, why=''): ctx.result('%s: %s' % (fam, name), prove.Result(True, 'eval') if ok else prove.Result(False, 'eval', why))
    def num(t):
        if t is None or t.op != 'c': return pp(t)
        return t.a[0] & 0xffffffff if kind == 'mask' and -(1 << 31) <= t.a[0] < -1 else t.a[0]      # the mask enumerations are unsigned
    ob('the table is not empty', n > 0)
    for k in range(n):
        ex, r = call(mods, fam + '_index_to_name', [ic(k)]); s = cstring(ex, r, TRUE)
        ob('index %d has a name' % k, s is not None and (len(s) > 0 or k < first), pp(r)); names.append((s or b'').decode('latin1'))
        ex, r = call(mods, fam + '_index_to_' + code, [ic(k)]); vals.append(num(r))
    ob('names are distinct', len(set(names)) == n, str(names)); ob('codes are distinct', len(set(vals)) == n, str(vals))
    if kind == 'mask': ob('codes are single bits', all(isinstance(v, int) and v > 0 and v & (v - 1) == 0 for v in vals), str(vals))
    try: want = build.consts(*[prefix + x.upper() for x in names], headers=INC)
    except Exception as e: want = None; ob('every name belongs to a public constant', False, str(e)[-200:])
    for k in range(n):
        nm, v = names[k], vals[k]
        if want: ob('%s is the name of its code' % nm, v == want[k], '%s is %s, the public constant is %s' % (nm, v, want[k]))
        ex, r = call(mods, fam + '_name_to_index', [string_arg(nm)]); ob('%s -> index' % nm, num(r) == k, 'index %d expected, %s found' % (k, num(r)))
        ex, r = call(mods, fam + '_%s_to_index' % code, [ic(v)]); ob('code of %s -> index' % nm, num(r) == k, 'index %d expected, %s found' % (k, num(r)))
        ex, r = call(mods, fam + '_name_to_%s' % code, [string_arg(nm)]); ob('%s -> code' % nm, num(r) == v, 'code %s expected, %s found' % (v, num(r)))
        ex, r = call(mods, fam + '_%s_to_name' % code, [ic(v)]); s = cstring(ex, r, TRUE); ob('code of %s -> name' % nm, s == nm.encode(), '%s found' % s)
    # anything outside the tables is refused
    x = ivar('code'); out = [not_(eq(x, ic(v))) for v in vals] + [not_(eq(x, ic(v - (1 << 32)))) for v in vals if isinstance(v, int) and v >= 1 << 31]
    def P(name, c, g, facts): ctx.result('%s: %s' % (fam, name), prove.prove(c, g, facts, seed=ctx.seed))
    i = ivar('index'); bad = or_(lt(i, ZERO), le(ic(n), i))
    ex, r = call(mods, fam + '_index_to_name', [i], g=bad); P('no name for an index outside the table', isnull(r), bad, [])
    ex, r = call(mods, fam + '_index_to_' + code, [i], g=bad); P('no code for an index outside the table', refuse(r), bad, [])
    ex, r = call(mods, fam + '_%s_to_name' % code, [x]); P('no name for an unknown code', isnull(r), andl(out), [])
    ex, r = call(mods, fam + '_%s_to_index' % code, [x]); P('no index for an unknown code', eq(r, ic(-1)), andl(out), [])
    for s in sorted({z for nm in names for z in (nm + 'x', nm[:-1], 'x' + nm, nm.upper())} - set(names)):
        ex, r = call(mods, fam + '_name_to_index', [string_arg(s)]); ob('no index for "%s"' % s, num(r) == -1, '%s found' % num(r))
        ex, r = call(mods, fam + '_name_to_' + code, [string_arg(s)]); ob('no code for "%s"' % s, num(r) in (-1, (1 << 32) - 1), '%s found' % num(r))
    nm = lambda ex: ptr(Fam('unknown name'))
    unk = andl(not_(eq0(ivar('strcmp:%s:%s' % tuple(sorted([str(('str', s.encode())), str(('obj', 'unknown name'))]))))) for s in names)
    ex, r = call(mods, fam + '_name_to_index', [nm]); P('no index for an unknown name', eq(r, ic(-1)), unk, [])
    ex, r = call(mods, fam + '_name_to_' + code, [nm]); P('no code for an unknown name', refuse(r), unk, [])
    ex, r = call(mods, fam + '_max_name_length', []); ob('longest name', num(r) == max(len(s) for s in names), '%s' % num(r))
    if kind == 'mask': lists(ctx, mods, fam, names, vals, P, ob, num)

def isnull(r):
    if r.op == 'null': return TRUE
    if r.op == 'ite': return or_(and_(r.a[0], isnull(r.a[1])), and_(not_(r.a[0]), isnull(r.a[2])))
    return FALSE
def refuse(r): return or_(eq(r, ic(-1)), eq(r, ic((1 << 32) - 1)))

LISTS = {'_mask_to_index_list': 'mask_to_index_list', '_mask_to_value_list': 'mask_to_value_list', '_mask_to_name_list': 'mask_to_name_list', '_name_list_to_mask': 'name_list_to_mask', '_value_list_to_mask': 'value_list_to_mask'}
def lists(ctx, mods, fam, names, vals, P, ob, num):
    """lists of codes: every subset of a small table; singles, pairs and the whole of a large one (bounded)"""
    n = len(vals)
    if n <= 6:
        for fn, want in (('_mask_to_index_list', lambda k: ic(k)), ('_mask_to_value_list', lambda k: ic(vals[k]))):
            m = ivar('mask'); L = ivar('length'); sz = 4 if 'index' in fn else 8
            facts = [le(ZERO, m), le(ic(n), L)]
            f = Fam('list'); f.S = sz
            ex, r = call(mods, fam + fn, [m, ptr(f), L], facts, g=andl(facts), unroll=True)
            cnt = ZERO
            for k in range(n):
                b = bit(m, vals[k].bit_length() - 1)
                v = ex.load(ptr(f, (), scale(sz, cnt)), ir.I32 if sz == 4 else ir.I64, andl(facts + [b]))
                P('%s lists entry %s' % (fn[1:], names[k]), eq(v, want(k)), andl(facts + [b]), facts)
                cnt = add(cnt, ite(b, ONE, ZERO))
            P('%s returns the number of entries' % fn[1:], eq(r, cnt), andl(facts), facts)
    # the interface functions hand their own tables to the generic ones
    for fn, gen in LISTS.items():
        ex = Exec(mods); seen = []
        F = ex.funcs.get(fam + fn)
        if F is None: raise Unsupported('no function ' + fam + fn)
        def h(ex_, g, a, I): seen.append(a); return ivar('ret') if I.ty.k == 'i' else ptr(Fam('ret'))
        ex.contracts = {gen: h}; ex.facts = []; ex.solver = solve.make_solver([])
        A = [ivar('p%d' % k) if p[1].k == 'i' else ptr(Fam('arg%d' % k)) for k, p in enumerate(F.params)]
        ex.exec_function(F, A, TRUE)
        if len(seen) != 1: ctx.undecided(fam + fn, 'the lookup is not recognised'); continue
        a = seen[0]; tabs = {q.a[0].name for q in a if q.op == 'ptr' and getattr(q.a[0], 'is_global', False) and not q.a[0].name.startswith('@.str')}
        if gen != 'value_list_to_mask': ob('%s uses the table of its own codes' % fn[1:], tabs and all(q.startswith('@' + fam + '_') for q in tabs) and any(q.op == 'c' and q.a[0] == n for q in a), str(tabs))
    native(ctx, fam, names, vals)

HARNESS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gutil.h"
#include "gindex_name_value.h"
static const char *N[] = {%s}; static long V[] = {%s}; enum { T = %d };
static int bad(const char *w, long m) { printf("%%s mask %%ld\n", w, m); return 1; }
static int one(long m) { char full[4096], b[4096], *c; int i, k, ix[T], len; long v[T]; int cnt = 0; full[0] = 0;
 for (i = 0; i < T; i++) if (m & V[i]) { if (cnt) strcat(full, ","); strcat(full, N[i]); cnt++; }
 len = strlen(full) + 1; c = malloc(len); if (mask_to_name_list(m, V, T, N, c, len) != c || strcmp(c, full)) return bad("mask_to_name_list", m);
 if (name_list_to_mask(c, V, N, T, "x") != m) return bad("name_list_to_mask", m); free(c);
 for (k = 1; k < len; k += 5) { c = malloc(k); memset(c, 'x', k); mask_to_name_list(m, V, T, N, c, k); if (memchr(c, 0, k) == 0 || strncmp(c, full, strlen(c))) return bad("mask_to_name_list truncated", m); free(c); }
 if (mask_to_index_list(m, V, T, ix, T) != cnt || mask_to_value_list(m, V, T, v, T) != cnt) return bad("mask_to_list count", m);
 for (i = k = 0; i < T; i++) if (m & V[i]) { if (ix[k] != i || v[k] != V[i]) return bad("mask_to_list entry", m); k++; }
 if (value_list_to_mask(v, cnt) != m) return bad("value_list_to_mask", m);
 for (k = 0; k <= cnt; k++) { int *ix2 = malloc(sizeof(int) * (k ? k : 1)); long *v2 = malloc(sizeof(long) * (k ? k : 1)); int k2 = k; ix2[0] = -7; v2[0] = -7;
  if (mask_to_index_list(m, V, T, ix2, k) != k2 || mask_to_value_list(m, V, T, v2, k) != k2) return bad("short list", m); if (!k && (ix2[0] != -7 || v2[0] != -7)) return bad("empty list written", m); free(ix2); free(v2); }
 return 0; }
int main() { int i, j; long all = 0; char s[64] = "no_such_name"; if (one(0)) return 1;
 for (i = 0; i < T; i++) { if (one(V[i])) return 1; all |= V[i]; for (j = 0; j < i; j++) if (one(V[i] | V[j])) return 1; }
 if (one(all)) return 1; if (name_list_to_mask(s, V, N, T, "x") >= 0) return bad("unknown name accepted", 0); return 0; }
"""
def native(ctx, fam, names, vals):
    import os, resource, subprocess
    d = build.scratch(); src = os.path.join(d, fam + '_lists.c'); exe = os.path.join(d, fam + '_lists')
    open(src, 'w').write(HARNESS % (', '.join('"%s"' % x for x in names), ', '.join('%dL' % v for v in vals), len(vals)))
    r = subprocess.run(['gcc', '-w', '-g', '-O1', '-fsanitize=address', '-fno-sanitize-recover'] + build.cflags() + ['-o', exe, src, build.REPO + '/misc/gindex_name_value.c'], capture_output=True, text=True)
    if r.returncode: ctx.undecided(fam + ': lists', 'harness does not build: ' + r.stderr[-200:]); return
    r = subprocess.run([exe], capture_output=True, text=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],)*2))     # the shadow memory is huge
    nm = '%s: lists of names and codes (single entries, pairs, the whole table, short buffers)' % fam
    if r.returncode == 0: ctx.bounded(nm, 'run on the real code')
    elif 'ReserveShadowMemoryRange' in r.stderr: ctx.undecided(nm, 'the sanitizer cannot run here: ' + r.stderr[-200:])
    else: ctx.violation(nm, (r.stdout + r.stderr)[-600:], dict(program=open(src).read(), output=(r.stdout + r.stderr)[-2000:]), True)

def generic(ctx, mods, what):
    n, x = ivar('n'), ivar('x')
    facts = [le(ZERO, n)]
    names = Fam('names'); names.S = 8; vals = Fam('values'); vals.S = 8
    nm = Fam('name')
    def streq(ex, g, a, I):
        p = [q for q in a if not (q.op == 'ptr' and q.a[0] is nm)]
        if len(p) != 1 or p[0].op != 'ptr' or len(p[0].a[1]) != 1: raise Unsupported('comparison of an unknown string')
        return app('strcmp', (p[0].a[1][0],), 'i')
    D = ptr(Fam('desc'))
    A = {'index_to_name': [x, ptr(names), n, D], 'name_to_index': [ptr(nm), ptr(names), n, D], 'index_to_value': [x, ptr(vals), n, D], 'value_to_index': [x, ptr(vals), n, D],
         'name_to_value': [ptr(nm), ptr(vals), ptr(names), n, D], 'value_to_name': [x, ptr(vals), ptr(names), n, D]}[what]
    ex = Exec(mods); ex.contracts = {'strcmp': streq}; F = ex.funcs.get(what)
    if F is None or len(F.params) != len(A): raise Unsupported('parameters of %s changed' % what)
    ex.facts = list(facts); ex.solver = solve.make_solver(facts); g = andl(facts)
    t0 = ex.time; r = ex.exec_function(F, A, g)
    def val(i): return ex.load(ptr(vals, (), scale(8, i)), ir.I64, g, t0)
    def nam(i): return ex.load(ptr(names, (), scale(8, i)), ir.PTR, g, t0)
    def P(name, c, gg=TRUE): ctx.result('%s: %s' % (what, name), prove.prove(c, and_(g, gg), facts, seed=ctx.seed))
    rngx = and_(le(ZERO, x), lt(x, n))
    if what == 'index_to_name': P('null outside', isnull(under_(r, not_(rngx))), not_(rngx)); P('entry of the table', samep(under_(r, rngx), nam(x)), rngx); return
    if what == 'index_to_value': P('error outside', eq(r, ic(-1)), not_(rngx)); P('entry of the table', eq(r, val(x)), rngx); return
    hit = (lambda i: eq0(app('strcmp', (i,), 'i'))) if what.startswith('name') else (lambda i: eq(val(i), x))
    j = ivar('ix:j')
    inj = and_(le(ZERO, j), lt(j, n))
    # j is the first entry that matches (entries before it do not): the result is entry j
    k = bound_var(); first = andl([inj, hit(j), forall(k, j, not_(hit(k)))])
    none = forall(k, n, not_(hit(k)))
    miss = {'name_to_index': lambda: eq(r, ic(-1)), 'value_to_index': lambda: eq(r, ic(-1)), 'name_to_value': lambda: eq(r, ic(-1)), 'value_to_name': lambda: isnull(under_(r, none))}[what]
    got = {'name_to_index': lambda: eq(r, j), 'value_to_index': lambda: eq(r, j), 'name_to_value': lambda: eq(r, val(j)), 'value_to_name': lambda: samep(under_(r, first), nam(j))}[what]
    P('refused when no entry matches', miss(), none); P('the first entry that matches', got(), first)
def under_(r, g):
    from vf.terms import under
    return under(r, g)
def samep(p, q):
    if p.op == 'ite': return or_(and_(p.a[0], samep(p.a[1], q)), and_(not_(p.a[0]), samep(p.a[2], q)))
    if p.op == 'ptr' and q.op == 'ptr' and p.a[0] is q.a[0] and len(p.a[1]) == len(q.a[1]): return andl([eq(a, b) for a, b in zip(p.a[1], q.a[1])] + [eq(p.a[2], q.a[2])])
    return FALSE

def inputs(ctx, mods, fam):
    """names of the inputs in error messages"""
    ex, n = call(mods, 'xrtm_input_index_to_name', [ic(-1)])
    names = []; k = 1
    while k < 200:
        ex, r = call(mods, 'xrtm_input_index_to_name', [ic(k)]); s = cstring(ex, r, TRUE)
        if s is None: break
        names.append(s.decode('latin1')); k += 1
    def ob(name, ok, why=''): ctx.result('xrtm_input: %s' % name, prove.Result(True, 'eval') if ok else prove.Result(False, 'eval', why))
    ob('names are distinct', len(set(names)) == len(names))
    try: want = build.consts(*['INPUT_' + x.upper() for x in names] + ['N_INPUTS'], headers=('xrtm_interface.c',))
    except Exception as e: ob('every name belongs to an input', False, str(e)[-300:]); return
    ob('every input has a name', want[-1] == len(names) + 1, '%d names, codes up to %d' % (len(names), want[-1] - 1))
    for k, x in enumerate(names): ob('%s is the name of its input' % x, want[k] == k + 1, 'code %d, name at %d' % (want[k], k + 1))

def run(ctx):
    mods = ctx.load(*SRC)
    items = [(f[0], family, mods, f) for f in FAM] + [('xrtm_input', inputs, mods, 'xrtm_input')] + [(w, generic, mods, w) for w in ('index_to_name', 'name_to_index', 'index_to_value', 'value_to_index', 'name_to_value', 'value_to_name')]
    ctx.par(items, lambda c, it: safe(c, it[0], it[1], it[2], it[3]))
