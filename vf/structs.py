"""Record layouts of the current headers (from clang), and symbolic structures with named fields."""
import os, subprocess, re
from . import build, ir, sym
from .terms import *
from .sym import Fam, Unsupported
_cache = {}
def layouts():
    if 'all' in _cache: return _cache['all']
    f = os.path.join(build.scratch(), 'lay.c')
    hs = ['gutil.h', 'gmath.h', 'xrtm.h', 'xrtm_interface.h', 'xrtm_fd_interface.h', 'xrtm_work.h', 'xrtm_save_tree.h', 'xrtm_stacks.h', 'xrtm_brdf.h', 'xrtm_scatter.h', 'xrtm_model.h', 'xrtm_sos.h', 'xrtm_adding.h', 'gstruct_dclist.h', 'xrtm_adding_a.h', 'xrtm_radiance_a.h', 'xrtm_source_a.h']
    import glob
    open(f, 'w').write('#include <stddef.h>\n' + ''.join('#include "%s"\n' % h for h in hs if any(os.path.exists(os.path.join(build.REPO, d, h)) for d in ('src', 'misc', 'interfaces')))
                       + 'int f0(void){return sizeof(xrtm_data)+sizeof(work_data)+sizeof(xrtm_fd_data)+sizeof(save_tree_data)+sizeof(layer_add_aux_data)+sizeof(stack_data)+sizeof(work_shared)+sizeof(forward_save_layer_add_ref_data)+sizeof(forward_save_layer_add_all_data)+sizeof(forward_save_radiance_boa_all_data)+sizeof(forward_save_build_source_vectors_1n_data);}\n')
    r = subprocess.run(['clang-18', '-w', '-Xclang', '-fdump-record-layouts', '-fsyntax-only'] + build.cflags() + [f], capture_output=True, text=True)
    out = {}
    for blk in r.stdout.split('*** Dumping AST Record Layout'):
        ls = [l for l in blk.splitlines() if '|' in l]
        if not ls: continue
        m = re.match(r'\s*(\d+) \| (.*)$', ls[0])
        if not m: continue
        name = m.group(2).strip().replace('struct ', '')
        fl = {}; stack = []
        for l in ls[1:]:
            m = re.match(r'\s*(\d+) \| (\s*)(.*)$', l)
            if not m:
                m2 = re.search(r'sizeof=(\d+)', l)
                if m2: size = int(m2.group(1))
                continue
            off, ind, decl = int(m.group(1)), len(m.group(2)), m.group(3).strip()
            mm = re.match(r'(.*?)\s*\b(\w+)$', decl)
            if not mm: continue
            ty, fn = mm.group(1).strip(), mm.group(2)
            while stack and stack[-1][0] >= ind: stack.pop()
            full = '.'.join([x[1] for x in stack] + [fn])
            fl[full] = (off, ty); stack.append((ind, fn))
        out[name] = (size, fl)
    if 'stack_data' not in out and 'stack_data_' in out: out['stack_data'] = out['stack_data_']
    _cache['all'] = out
    return out
BT = {'double': ir.DBL, 'int': ir.I32, 'uchar': ir.I8, 'unsigned char': ir.I8, 'char': ir.I8, 'long': ir.I64, 'size_t': ir.I64, 'unsigned long': ir.I64, 'ushort': ir.I16, 'short': ir.I16, 'enum': ir.I32,
      'double _Complex': None}
def base_type(ty):
    n = ty.count('*') ; arr = re.findall(r'\[(\d+)\]', ty)
    b = re.sub(r'[\*\[\]\d]', ' ', ty).strip(); b = re.sub(r'\s+', ' ', b)
    b = re.sub(r'^(const|struct) ', '', b).strip()
    if b.startswith('enum'): b = 'enum'
    return b, n, [int(x) for x in arr]
def size_of(b):
    if b in BT and BT[b] is not None: return BT[b].k == 'double' and 8 or BT[b].a//8
    L = layouts().get(b)
    if L: return L[0]
    return None

class Struct:
    """symbolic structure of C type tname; fields are addressed by name"""
    def __init__(s, name, tname, fam=None):
        s.size, s.fl = layouts()[tname]; s.name = name
        s.fam = fam or Fam(name); s.fam.S = s.size
        off2 = {}
        for fn, (o, ty) in s.fl.items():
            b, n, arr = base_type(ty)
            if n == 0 and b not in BT: continue      # nested record header
            if arr:
                es = 8 if n else size_of(b)
                for j in range(arr[0] if len(arr) == 1 else 0): off2[o + j*es] = '%s[%d]' % (fn, j)
            else: off2[o] = fn
        s.fam.ctype = lambda r: off2.get(r, '@%s' % r)
        s.base = ptr(s.fam)
        s.types = {}
        def childinit(c, r):
            fn = off2.get(r)
            if fn is None: return
            f0 = fn.split('[')[0]
            b, n, arr = base_type(s.fl[f0][1])
            s.setup_child(c, b, n)
        s.fam.childinit = childinit
    def setup_child(s, c, b, n):
        """pointer family of depth n over base b"""
        if n > 1:
            c.S = 8; c.ctype = lambda r: '*'
            c.childinit = lambda c2, r: s.setup_child(c2, b, n-1)
        else:
            sz = size_of(b)
            if b in BT: c.S = sz; c.ctype = lambda r: 'v' if r == 0 else '@%s' % r
            elif sz: 
                st = Struct.__new__(Struct)
                Struct.__init__(st, c.name, b, c)
    def field(s, fn):
        off, ty = s.fl[fn]; b, n, arr = base_type(ty)
        return off, b, n, arr
    def addr(s, fn): return s.base_at(s.field(fn)[0])
    def base_at(s, o): return ptr(s.fam, (), ic(o))
    def get(s, ex, fn, *idx, time=None, g=TRUE):
        off, b, n, arr = s.field(fn); p = s.base_at(off); idx = list(idx)
        idx = [i if isinstance(i, T) else ic(i) for i in idx]
        if arr:
            es = 8 if n else size_of(b)
            p = ex.padd(p, scale(es, idx.pop(0)))
        k = n
        while k > 0 and idx:
            q = ex.load(p, ir.PTR, g, time)
            es = 8 if k > 1 else size_of(b)
            p = ex.padd(q, scale(es, idx.pop(0))); k -= 1
        if k > 0: return ex.load(p, ir.PTR, g, time)
        t = BT.get(b)
        if t is None: return p
        return ex.load(p, t, g, time)
    def fam_of(s, ex, fn):
        """the family holding the data cells of a pointer field"""
        off, b, n, arr = s.field(fn)
        f = s.fam
        c = f.child(off)
        for _ in range(n-1): c = c.child(0)
        return c
