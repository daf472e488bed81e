"""Guard-level contracts of the functions that serve saved intermediate results: under which conditions on the dependency flags
a result is rebuilt.  Every callee other than the ones listed as inlined is replaced by a contract that records the call and returns
an arbitrary value (it may not change the dependency flags; each callee that does has its own contract)."""
from .terms import *
from . import terms as TM, solve, prove, ir
from .sym import Exec, Fam, Unsupported
from .handle import Handle, K
from .contract import TYS

import os
KNOWN = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_functions.txt')).read().split())

class Run:
    def __init__(s, mods, fn, inline=(), result=None, ptrs=None, requires=None, over=None, opaque=True, wf=True, rec=False):
        ex = s.ex = Exec(mods); ex.ptr_havoc = True; ex.opaque = opaque; F = ex.funcs.get(fn)
        if F is None: raise Unsupported('no function ' + fn)
        s.fn = fn; s.H = None; s.a = {}; args = []; s.calls = []
        over = over or {}
        for k, (nm, ty, bv) in enumerate(F.params):
            nm = nm.lstrip('%')
            if k in over or nm in over:
                v = over[k if k in over else nm]; v = v(s) if callable(v) else v
            elif ty.k == 'i': v = ivar('p%d' % k)
            elif ty.k == 'double': v = dvar('p%d' % k)
            elif k == 0: s.H = Handle(ex); v = s.H.d.base
            else: v = ptr(Fam('arg%d' % k))
            s.a[k] = v; args.append(v)
        H = s.H
        if H and wf: H.setup_umus()
        s.t0 = ex.time
        if H: H.freeze()
        s.facts = (H.wf() if H and wf else []) + (list(requires(s)) if requires else [])
        s.pre = TRUE
        for f in s.facts:
            if type(f) is not tuple and f.op in ('le0', 'eq0', 'not', 'app'): s.pre = and_(s.pre, f)
        ex.facts = list(s.facts); ex.solver = solve.make_solver(s.facts)
        res = result or {}
        def rec(name):
            def h(ex_, g, a, I):
                s.note = []; s.calls.append((name, g, a)); ex_.events.append(('call', g, name, len(s.calls) - 1, tuple(a), s.note))
                if name in res:
                    r = res[name]; return r(s, g, a) if callable(r) else r
                if I.ty.k == 'i': return app(ex_.fresh('ret'), tuple(ex_.kstack), 'i')
                if I.ty.k == 'double': return app(ex_.fresh('ret'), tuple(ex_.kstack), 'd')
                if I.ty.k == 'void': return None
                return ptr(Fam(ex_.fresh('obj')))
            return h
        for n in ex.funcs:
            if n == fn and not rec or n in inline or any(n.startswith(p[:-1]) for p in inline if p.endswith('*')) or '_deps' in n: continue
            if n not in KNOWN: continue        # a helper extracted from a known function: part of its caller
            ex.contracts[n] = rec(n)
        for n in res:
            if n not in ex.funcs: ex.contracts[n] = rec(n)
        ex.default = lambda ex_, name, g, a, I: rec(name)(ex_, g, a, I)
        s.rv = ex.exec_function(F, args, s.pre)
    def called(s, *names, args=None):
        """condition under which one of the functions has been called (inside a loop: for some iteration)"""
        c = FALSE
        def go(ev):
            if ev[0] == 'call' and (ev[2] in names):
                g = ev[1]
                if args:
                    g = and_(g, args(ev[4]))
                return g
            if ev[0] == 'loop':
                kk, hi = ev[1], ev[4]; c = go(ev[3])
                return FALSE if c is FALSE else exists(kk, hi, c)
            return FALSE
        for ev in s.ex.events: c = or_(c, go(ev))
        return c
