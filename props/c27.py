"""C27: no function reachable from the interface reads or writes state shared by the process."""
import glob, os, re, subprocess
from vf import build, ir, frame
FLOOR = 250
NAME = 'isolation of handles'
ROOTS = ('src/xrtm_interface.c', 'src/xrtm_fd_interface.c', 'src/xrtm_support.c', 'src/xrtm_brdf.c')

def fortran(reach_ext):
    """objects with static storage that the reachable Fortran routines refer to, from the code the compiler generates: [(routine, section)]"""
    out = []; seen = set()
    for f in sorted(glob.glob(build.REPO + '/src/*.f')):
        o = os.path.join(build.scratch(), os.path.basename(f) + '.o')
        r = subprocess.run(['gfortran', '-w', '-O2', '-cpp', '-std=legacy', '-ffixed-line-length-132', '-c', '-o', o, f], capture_output=True, text=True)
        if r.returncode: out.append((f, None, 'does not compile')); continue
        t = subprocess.run(['objdump', '-dr', '--no-show-raw-insn', o], capture_output=True, text=True).stdout
        sy = subprocess.run(['nm', o], capture_output=True, text=True).stdout
        data = {l.split()[2] for l in sy.splitlines() if len(l.split()) == 3 and l.split()[1] in 'bBdDC'}
        fn = None; d = {}
        for l in t.splitlines():
            m = re.match(r'^[0-9a-f]+ <(\S+)>:$', l)
            if m: fn = m.group(1); d.setdefault(fn, set()); continue
            m = re.search(r'R_X86_64_\S+\s+(\S+?)([-+]0x[0-9a-f]+)?$', l)
            if m and fn: d[fn].add(m.group(1))
        out.append((f, d, data))
    return out

def run(ctx):
    srcs = sorted(glob.glob(build.REPO + '/src/*.c') + glob.glob(build.REPO + '/misc/*.c'))
    ok = []
    def one(s):
        try: return build.compile_ll(s, outname='c27_' + os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s).replace('.', '_'))
        except RuntimeError as e: return e
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, srcs))
    mods = []; files = []
    for s, o in zip(srcs, outs):
        if isinstance(o, Exception): ctx.notes.append('%s is not compiled here: %s' % (os.path.basename(s), str(o)[-150:])); continue
        mods.append(ir.parse_module(o)); files.append(os.path.relpath(s, build.REPO))
    L = frame.Lib(mods)
    roots = [(k, n) for k, M in enumerate(mods) if files[k] in ROOTS for n, F in M.funcs.items() if not F.internal]
    keys = L.reach(roots)
    out, rounds = L.analyse(keys)
    allw = {}      # every object any code of the library writes
    for key, O in out.items():
        for g in O['w']: allw.setdefault(g, key)
    esc = {g: key for key, O in out.items() for g in O['esc'] if g in L.gl and not L.const(g)}
    isf = lambda g: isinstance(g, tuple) and g and g[0] == 'f'
    ext_called = set()
    for key in sorted(keys, key=lambda k: (files[k[0]], k[1])):
        O = out[key]; nm = '%s: ' % key[1]; ctx.functions.add(key[1])
        for I in L.blocks(key):
            if I.op == 'call' and I.a[0] == 'glob' and L.target(key[0], I.a[1])[0] is None: ext_called.add(I.a[1])
        w = {g for g in O['w'] if not isf(g) and g not in frame.STDIO and not L.const(g)}
        r = {g for g in O['r'] if not isf(g) and g not in frame.STDIO and g in allw and not L.const(g)}
        if w or O['x']: ctx.violation(nm + 'assigns nothing that is shared by the process', '; '.join(['writes %s' % frame.name(g) for g in sorted(w, key=str)] + sorted(O['x'])) + ' (%s)' % files[key[0]])
        else: ctx.ok(nm + 'assigns nothing that is shared by the process', 'frame')
        if r - w: ctx.violation(nm + 'reads no state shared by the process', 'reads %s, which %s() writes' % (frame.name(sorted(r, key=str)[0]), allw[sorted(r, key=str)[0]][1]))
        else: ctx.ok(nm + 'reads no state shared by the process', 'frame')
    for g, key in sorted(esc.items(), key=str):
        if frame.name(g) == 'gaatree_null_node':
            ctx.bounded('%s: the sentinel of all trees is never written' % frame.name(g), 'bounded: replay/C27.c compares it after every insertion'); ctx.assume('the sentinel node shared by all trees of misc/gstruct is never written (bounded check: its address is stored in every tree, so the frame analysis cannot decide it)'); continue
        ctx.undecided('%s: address of %s' % (key[1], frame.name(g)), 'the address of an object that is not constant is stored in memory that is not followed')
    for g, G in L.gl.items():
        if getattr(G, 'tls', False) and g in L.refs: ctx.violation('%s is not thread local' % frame.name(g), 'state of the thread, shared by the handles it uses')
    known = {n for n in ext_called if n.startswith('llvm.')}
    # routines written in Fortran: at the level of the generated code
    try:
        fo = fortran(ext_called); defs = {}
        for f, d, data in fo:
            if d is None: ctx.undecided(os.path.basename(f), data); continue
            for fn, refs in d.items(): defs[fn] = (f, refs, data)
        todo = [n for n in ext_called if n in defs]; seen = set()
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n); f, refs, data = defs[n]
            todo += [x for x in refs if x in defs]
            bad = sorted(x for x in refs if x in ('.bss', '.data') or x in data)
            if bad: ctx.violation('%s: has no static storage' % n, '%s refers to %s in %s' % (n, bad, os.path.basename(f)))
            else: ctx.ok('%s: has no static storage' % n, 'object code')
        ctx.functions |= seen
    except Exception as e: ctx.undecided('Fortran routines', repr(e))
    ctx.trusted |= {n for n in ext_called if n not in (seen or ())}
    ctx.assume('external functions (libc, BLAS/LAPACK, the user\'s kernels) other than the listed stateful ones keep no state shared by handles; error reports to stderr are not state',
               'a pointer loaded from memory that does not denote a static object (heap, stack, caller\'s memory) does not point at a static object unless its address was seen to be stored there (such stores are reported)')
    ctx.run_native('two handles used alternately and in two threads give the results each gives alone', 'bounded: replay/C27.c')
