"""Replay of counterexamples on the real code: the current /repo sources are built into a shared library
(scratch directory) and the function under contract is called, in a forked child, with the concrete inputs."""
import threading, resource, os, subprocess, ctypes, glob, pickle, signal, sys
from concurrent.futures import ThreadPoolExecutor
from . import build
_lib = None
def library():
    """path of a shared library with the C code of src/, interfaces (C only) and misc/ of the current tree"""
    global _lib
    if _lib: return _lib
    d = os.path.join(build.scratch(), 'native'); os.makedirs(d, exist_ok=True)
    srcs = [s for s in glob.glob(build.REPO + '/src/*.c') + glob.glob(build.REPO + '/misc/*.c')]
    def cc(s):
        o = os.path.join(d, os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s)[:-2] + '.o')
        r = subprocess.run(['gcc', '-w', '-O1', '-g', '-fPIC', '-fopenmp', '-c', '-o', o, s] + build.cflags(), capture_output=True, text=True)
        return o if r.returncode == 0 else None
    threading.stack_size(4 << 20)       # the checker's own thread has a very large stack
    with ThreadPoolExecutor(8) as ex: objs = [o for o in ex.map(cc, srcs) if o]
    st = os.path.join(d, 'stub.c'); open(st, 'w').write('const char *build_date = "none"; int build_number = 0; const char *build_sha_1 = ""; const char *build_sha = "";\n')
    so = os.path.join(d, 'stub.o'); subprocess.run(['gcc', '-fPIC', '-c', '-o', so, st], check=True); objs.append(so)
    for libs in (['-lopenblas', '-llapack', '-lm'], ['-llapack', '-lblas', '-lm'], ['-lm']):
        out = os.path.join(d, 'libxrtm_native.so')
        r = subprocess.run(['gcc', '-shared', '-fopenmp', '-o', out, '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy'] + objs + ['-L/usr/lib/x86_64-linux-gnu'] + libs, capture_output=True, text=True)
        if r.returncode == 0: _lib = out; return out
    raise RuntimeError('native library: ' + r.stderr[:500])

def forked(fn, timeout=60):
    """run fn() in a child; -> (status, value): ('ok', v) | ('signal', n) | ('error', text) | ('timeout', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            signal.alarm(timeout); resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
            try: out = ('ok', fn())
            except BaseException as e: out = ('error', repr(e))
            with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return ('timeout', None) if s == signal.SIGALRM else ('signal', s)
    if not data: return ('signal', 'exit %d' % os.WEXITSTATUS(st))
    return pickle.loads(data)

class Arr:
    """nested C array (pointer tables down to a data level) built from nested python lists"""
    CT = {'d': ctypes.c_double, 'i': ctypes.c_int, 'uc': ctypes.c_ubyte, 'u16': ctypes.c_ushort, 'l': ctypes.c_long}
    def __init__(s, data, ty, depth, contig=False):
        s.keep = []; s.ty = ty; s.depth = depth
        if contig and depth == 2:           # rows in one block
            flat = [x for r in data for x in r]; w = len(data[0]) if data else 0
            b = (s.CT[ty]*max(1, len(flat)))(*flat); s.keep.append(b); z = ctypes.sizeof(s.CT[ty])
            s.root = (ctypes.c_void_p*max(1, len(data)))(*[ctypes.addressof(b) + z*w*i for i in range(len(data))]); s.keep.append(s.root); return
        s.root = s.build(data, depth)
    def build(s, data, depth):
        if depth == 1:
            a = (s.CT[s.ty]*max(1, len(data)))(*data)
        else:
            a = (ctypes.c_void_p*max(1, len(data)))(*[ctypes.addressof(s.build(x, depth-1)) for x in data])
        s.keep.append(a)
        return a
    def addr(s): return ctypes.c_void_p(ctypes.addressof(s.root))
    def read(s, idx):
        p = ctypes.addressof(s.root)
        for i in idx[:-1]: p = ctypes.c_void_p.from_address(p + 8*i).value
        return s.CT[s.ty].from_address(p + ctypes.sizeof(s.CT[s.ty])*idx[-1]).value
