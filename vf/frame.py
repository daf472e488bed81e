"""Frame contracts over the whole library: "assigns nothing, and reads nothing, that is shared by the process".
For every function reachable from the interface the set of objects with static storage duration (globals, function-level statics, thread-local
objects) each pointer operand may denote is computed from the IR: a fixpoint over the SSA values of the function, over the arguments at its call
sites and over return values.  An object declared constant, and one that no code of the library ever writes, is no state."""
from . import ir
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'erand48', 'strtok', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'localtime', 'gmtime', 'ctime', 'asctime', 'strerror_l', 'signal', 'chdir',
            'fesetround', 'feenableexcept', 'fesetenv', 'srandom_r', 'atexit', 'openblas_set_num_threads', 'omp_set_num_threads', 'mallopt', 'umask', 'setvbuf', 'tmpnam', 'hsearch', 'hcreate', 'lgamma', 'signgam', 'alarm'}
# externals that write through some of their pointer arguments (index) or none; every other external is assumed to write through each of them
WRITES = {'printf': (), 'fprintf': (), 'puts': (), 'putchar': (), 'fputs': (), 'fwrite': (), 'strlen': (), 'strcmp': (), 'strncmp': (), 'strcasecmp': (), 'strncasecmp': (), 'strdup': (), 'atoi': (), 'atof': (), 'exit': (), 'abort': (), 'fopen': (), 'strchr': (), 'strstr': (),
          'strtol': (1,), 'strtod': (1,), 'strtoll': (1,), 'memcmp': (), 'longjmp': (), 'system': (), 'fputc': (), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'sprintf': (0,), 'snprintf': (0,), 'qsort': (0,), 'strerror': ()}
STDIO = {'stderr', 'stdout', 'stdin'}
RETARG = {'strchr', 'strstr', 'strrchr', 'memcpy', 'memmove', 'strcpy', 'strcat', 'realloc'}

class Lib:
    def __init__(s, mods):
        s.mods = mods; s.ext = {}; s.fn = {}
        for k, M in enumerate(mods):
            for n, F in M.funcs.items():
                s.fn[(k, n)] = F
                if not F.internal: s.ext[n] = (k, n)
        s.gl = {}
        for k, M in enumerate(mods):
            for n, G in M.globals.items():
                if n.startswith('llvm.'): continue
                txt, ex = G.init
                if not ex: s.gl[(k, n) if G.internal else n] = G
        s.bad = []; s.calls = {}; s.unknown = {}
    def gkey(s, k, n):
        M = s.mods[k]
        if n in M.funcs or n in M.decls: return ('f',) + s.target(k, n)
        if (k, n) in s.gl: return (k, n)
        return n
    def target(s, k, n):
        if (k, n) in s.fn: return (k, n)
        return s.ext.get(n, (None, n))
    def blocks(s, key):
        F = ir.func_blocks(s.fn[key])
        for b in F.order:
            for I in F.blocks[b].insts: yield I
            if F.blocks[b].term is not None: yield F.blocks[b].term
    def base(s, k, v):
        """objects a constant operand denotes"""
        if v is None: return set()
        if v[0] == 'glob': return {s.gkey(k, v[1])}
        if v[0] == 'gep': return s.base(k, v[2])
        if v[0] == 'cast': return s.base(k, v[3])
        if v[0] == 'agg': return set().union(*[s.base(k, x[1]) for x in v[1]]) if v[1] else set()
        return set()
    def reach(s, roots):
        """functions reachable through calls, or whose address is taken by a reachable function (or by the initialiser of a global it mentions)"""
        todo = [r for r in roots]; seen = set(); s.refs = {}
        gseen = set()
        while todo:
            key = todo.pop()
            if key in seen or key not in s.fn: continue
            seen.add(key); k = key[0]
            for I in s.blocks(key):
                for v in s.operands(I):
                    for g in s.base(k, v):
                        if isinstance(g, tuple) and g and g[0] == 'f':
                            if g[1] is not None: todo.append((g[1], g[2]))
                        elif g not in gseen:
                            gseen.add(g); s.refs.setdefault(g, key)
                            G = s.gl.get(g)
                            if G is not None:
                                kk = g[0] if isinstance(g, tuple) else next((i for i, M in enumerate(s.mods) if M.globals.get(g) is G), k)
                                try:
                                    _, val = ir.global_init(s.mods[kk], g[1] if isinstance(g, tuple) else g)
                                    for h in s.base(kk, val):
                                        if isinstance(h, tuple) and h and h[0] == 'f' and h[1] is not None: todo.append((h[1], h[2]))
                                except Exception: pass
        return seen
    def operands(s, I):
        o = I.op
        if o == 'call': return [I.a] + [x[1] for x in I.b]
        if o == 'phi': return [v for v, _ in I.a]
        if o == 'getelementptr': return [I.b]
        if o == 'select': return [I.b, I.c]
        if o in ('store',): return [I.a, I.b]
        if o in ('load', 'ret', 'extractvalue', 'freeze'): return [I.a]
        if o == 'insertvalue': return [I.a, I.b]
        if o in ('br', 'cbr', 'switch', 'unreachable', 'alloca', 'asm'): return []
        return [x for x in (I.a, I.b) if isinstance(x, tuple)]
    def const(s, g):
        G = s.gl.get(g)
        if G is None: return False
        return G.const
    def analyse(s, keys):
        """-> per function: shared objects written, shared objects read, other findings"""
        params = {k: {} for k in keys}; rets = {k: set() for k in keys}; vals = {k: {} for k in keys}; held = {}   # held: object -> objects whose address is stored in it
        escaped = set()       # objects whose address is stored in memory that is not followed
        work = set(keys); users = {k: set() for k in keys}
        ptrs = lambda k, env, v: (env.get(v[1], set()) if v is not None and v[0] == 'loc' else s.base(k, v)) if v is not None else set()
        out = {k: dict(w=set(), r=set(), x=set(), esc=set()) for k in keys}
        rounds = 0
        while work:
            rounds += 1; key = work.pop(); k = key[0]; F = s.fn[key]; env = vals[key]
            for i, ps in params[key].items():
                n = F.params[i][0]; env.setdefault(n, set()).update(ps)
            O = out[key]; ch = True
            insts = list(s.blocks(key))
            while ch:
                ch = False
                for I in insts:
                    o = I.op; new = None
                    if o == 'getelementptr': new = ptrs(k, env, I.b)
                    elif o == 'phi': new = set().union(*[ptrs(k, env, v) for v, _ in I.a]) if I.a else set()
                    elif o == 'select': new = ptrs(k, env, I.b) | ptrs(k, env, I.c)
                    elif o in ('freeze', 'extractvalue', 'inttoptr', 'ptrtoint', 'bitcast'): new = ptrs(k, env, I.a) if isinstance(I.a, tuple) else set()
                    elif o == 'insertvalue': new = ptrs(k, env, I.a) | ptrs(k, env, I.b)
                    elif o in ('add', 'sub', 'and', 'or') and isinstance(I.a, tuple): new = ptrs(k, env, I.a) | ptrs(k, env, I.b)
                    elif o == 'load':
                        new = set()
                        for g in ptrs(k, env, I.a):
                            O['r'].add(g); new |= held.get(g, set())
                            G = s.gl.get(g)
                            if G is not None and I.ty.k == 'ptr':
                                kk = g[0] if isinstance(g, tuple) else next((i for i, M in enumerate(s.mods) if M.globals.get(g) is G), k)
                                try: new |= s.base(kk, ir.global_init(s.mods[kk], g[1] if isinstance(g, tuple) else g)[1])
                                except Exception: pass
                    elif o == 'store':
                        for g in ptrs(k, env, I.b):
                            O['w'].add(g)
                            t = held.setdefault(g, set()); q = ptrs(k, env, I.a)
                            if q - t: t |= q; work |= set(keys)
                        for q in ptrs(k, env, I.a):
                            if not ptrs(k, env, I.b): O['esc'].add(q)
                    elif o == 'ret':
                        q = ptrs(k, env, I.a)
                        if q - rets[key]: rets[key] |= q; work |= users[key]
                    elif o == 'asm': O['x'].add('inline assembly')
                    elif o in ('atomicrmw', 'cmpxchg', 'fence'): O['x'].add('an atomic operation')
                    elif o == 'call':
                        tg = None; new = set(); callees = []
                        if I.a[0] == 'glob': callees = [s.target(k, I.a[1])]
                        else: callees = [(h[1], h[2]) for h in ptrs(k, env, I.a) if isinstance(h, tuple) and h and h[0] == 'f']
                        for c in callees:
                            if c in out:
                                users[c].add(key); new |= rets[c]
                                for i, a in enumerate(I.b):
                                    q = ptrs(k, env, a[1])
                                    if q and i < len(s.fn[c].params):
                                        t = params[c].setdefault(i, set())
                                        if q - t: t |= q; work.add(c)
                                    elif q and i >= len(s.fn[c].params): O['esc'] |= {g for g in q}
                            else:
                                n = c[1]
                                if n in STATEFUL: O['x'].add('a call of %s(), which keeps state shared by the process' % n)
                                b = n[5:].split('.')[0] if n.startswith('llvm.') else n
                                wr = WRITES.get(b)
                                for i, a in enumerate(I.b):
                                    q = {g for g in ptrs(k, env, a[1]) if not (isinstance(g, tuple) and g and g[0] == 'f') and g not in STDIO}
                                    if not q: continue
                                    O['r'] |= q
                                    if wr is None or i in wr: O['w'] |= q
                                    if b in RETARG and i == 0: new |= q
                    if new and I.res is not None:
                        t = env.setdefault(I.res, set())
                        if new - t: t |= new; ch = True
        return out, rounds

def name(g): return g[1] if isinstance(g, tuple) else str(g)
