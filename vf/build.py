"""Compile /repo's current sources to LLVM IR, on every run, into a scratch directory."""
import os, subprocess, tempfile, shutil, atexit, sys, re
from concurrent.futures import ThreadPoolExecutor
from . import ir
REPO = os.environ.get('VF_REPO', '/repo')
DEFS = ['-DGBYTE_ORDER=BYTE_ORDER_LE', '-DNATIVE_SIZE=NATIVE_SIZE_64_BIT', '-DUNIX', '-DPLATFORM=LINUX_GCC', '-DVERSION="0.93"']
INCS = ['-I%s/src' % REPO, '-I%s/interfaces' % REPO, '-I%s/misc' % REPO]
PASSES = 'function(sroa,simplifycfg,loop-simplify,lcssa)'
_scratch = None; _owner = None
def scratch():
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf_')
        pid = _owner = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    if os.getpid() != _owner:          # a forked worker: its own directory inside the scratch directory
        d = os.path.join(_scratch, str(os.getpid())); os.makedirs(d, exist_ok=True); return d
    return _scratch

def cflags(): return DEFS + INCS

def compile_ll(src, extra=(), passes=PASSES, outname=None):
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    b = (outname or os.path.basename(path).replace('.', '_'))
    raw = os.path.join(scratch(), b + '.raw.ll'); out = os.path.join(scratch(), b + '.ll')
    lang = []
    cc = 'clang++-18' if path.endswith('.cpp') else 'clang-18'
    r = subprocess.run([cc, '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-ffp-contract=off', '-g']
                       + cflags() + list(extra) + ['-S', '-emit-llvm', '-o', raw, path], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('compilation of %s failed:\n%s' % (path, r.stderr[:3000]))
    r = subprocess.run(['opt-18', '-S', '-passes=' + (passes.replace('function(', 'function(lowerinvoke,', 1) if path.endswith('.cpp') else passes), raw, '-o', out], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('opt failed on %s: %s' % (path, r.stderr[:2000]))
    os.unlink(raw)
    return out

def load(srcs, extra=()):
    """-> list of parsed modules"""
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: compile_ll(s, extra), srcs))
    return [ir.parse_module(o) for o in outs]

_consts = {}
def consts(*names, headers=('gutil.h', 'gmath.h', 'xrtm.h', 'xrtm_interface.h', 'xrtm_scatter.h', 'xrtm_work.h', 'xrtm_adding.h', 'xrtm_model.h', 'xrtm_brdf.h', 'xrtm_support.h', 'xrtm_derivs.h', 'rtutil_math.h', 'rtutil_support.h')):
    """values of macros / enumerators as the current headers define them"""
    need = [n for n in names if n not in _consts]
    if need:
        f = os.path.join(scratch(), 'consts.c')
        hs = [h for h in headers if any(os.path.exists(os.path.join(REPO, d, h)) for d in ('src', 'misc', 'interfaces'))]
        open(f, 'w').write('#include <stddef.h>\n' + ''.join('#include "%s"\n' % h for h in hs) + ''.join('const long const_%d = (long) (%s);\n' % (i, n) for i, n in enumerate(need)))
        M = load([f])[0]
        for i, n in enumerate(need):
            v = ir.global_init(M, 'const_%d' % i)[1]
            _consts[n] = 0 if v[0] == 'zero' else v[1]
    return _consts[names[0]] if len(names) == 1 else [_consts[n] for n in names]
