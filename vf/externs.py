"""Assumed contracts of external (libc / libm / LLVM intrinsic) functions."""
from .terms import *

EXTERN = {}
def ext(*names):
    def d(f):
        for n in names: EXTERN[n] = f
        return f
    return d

for _n, _m in dict(exp='exp', log='log', sqrt='sqrt', sin='sin', cos='cos', tan='tan', acos='acos', asin='asin', atan='atan', sinh='sinh', cosh='cosh', tanh='tanh',
                   log10='log10', floor='floor', ceil='ceil', expm1='expm1', log1p='log1p', erf='erf', erfc='erfc').items():
    def _h(ex, g, a, I, m=_m): return fnx(m, a[0])
    EXTERN[_n] = _h
    EXTERN['llvm.%s.f64' % _n] = _h

def fnx(name, a):
    if a.op == 'undef': return a
    if a.op == 'ite' and (a.a[1].op == 'dc' or a.a[2].op == 'dc'): return ite(a.a[0], fnx(name, a.a[1]), fnx(name, a.a[2]))
    if a is D0:
        if name in ('exp', 'cos', 'cosh'): return D1
        if name in ('sin', 'tan', 'sqrt', 'asin', 'atan', 'sinh', 'tanh', 'floor', 'ceil', 'expm1', 'erf'): return D0
    if a is D1 and name in ('sqrt',): return D1
    if a is D1 and name in ('log', 'acos'): return D0
    if name == 'sqrt' and a.op == 'dc' and a.a[0] > 0:
        import math
        n, d = a.a[0].numerator, a.a[0].denominator
        if math.isqrt(n)**2 == n and math.isqrt(d)**2 == d: return dc(Fraction(math.isqrt(n), math.isqrt(d)))
    return dfn(name, a)

@ext('fabs', 'llvm.fabs')
def _fabs(ex, g, a, I): return dabs(a[0])
def dabs(x):
    if x.op == 'dc': return dc(abs(x.a[0]))
    if x.op == 'dneg': return dabs(x.a[0])
    if x.op == 'undef': return x
    return dfn('abs', x)
@ext('pow', 'llvm.pow')
def _pow(ex, g, a, I): return dpow(a[0], a[1])
def dpow(x, y):
    if y.op == 'dc' and y.a[0].denominator == 1 and abs(y.a[0]) <= 12:
        n = int(y.a[0]); r = D1
        for _ in range(abs(n)): r = dmul(r, x)
        return r if n >= 0 else ddiv(D1, r)
    if y.op == 'dc' and y.a[0] == Fraction(1, 2): return fnx('sqrt', x)
    return dfn('pow', x, y)
@ext('llvm.powi')
def _powi(ex, g, a, I): return dpow(a[0], i2d(a[1]))
@ext('atan2')
def _atan2(ex, g, a, I): return dfn('atan2', a[0], a[1])
@ext('fmod')
def _fmod(ex, g, a, I): return dfn('fmod', a[0], a[1])
@ext('llvm.fmuladd', 'llvm.fma', 'fma')
def _fma(ex, g, a, I): return dadd(dmul(a[0], a[1]), a[2])
@ext('llvm.maxnum', 'fmax')
def _fmax(ex, g, a, I): return ite(dlt(a[0], a[1]), a[1], a[0])
@ext('llvm.minnum', 'fmin')
def _fmin(ex, g, a, I): return ite(dlt(a[1], a[0]), a[1], a[0])
@ext('llvm.smax')
def _smax(ex, g, a, I): return ite(lt(a[0], a[1]), a[1], a[0])
@ext('llvm.smin')
def _smin(ex, g, a, I): return ite(lt(a[1], a[0]), a[1], a[0])
@ext('abs', 'labs', 'llvm.abs')
def _abs(ex, g, a, I): return ite(lt(a[0], ZERO), neg(a[0]), a[0])
@ext('isnan', '__isnan')
def _isnan(ex, g, a, I): return ZERO

@ext('fprintf', 'printf', 'puts', 'fputs', 'fputc', 'putchar', 'fflush', 'vfprintf', 'vprintf', 'perror', 'putc', 'fwrite')
def _io(ex, g, a, I):
    ex.events.append(('io', g))
    return ZERO
@ext('exit', 'abort', '__assert_fail')
def _exit(ex, g, a, I): ex.events.append(('exit', g)); return None
@ext('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stackrestore')
def _nop(ex, g, a, I): return None
@ext('llvm.expect')
def _expect(ex, g, a, I): return a[0]
@ext('llvm.stacksave')
def _ss(ex, g, a, I): return NULL
@ext('llvm.memset', 'memset')
def _memset(ex, g, a, I):
    ex.fill(a[0], a[1], a[2], g); return a[0]
@ext('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _memcpy(ex, g, a, I):
    ex.copy(a[0], a[1], a[2], g); return a[0]

@ext('malloc', 'valloc')
def _malloc(ex, g, a, I): return alloc(ex, g, a[0], I)
@ext('calloc')
def _calloc(ex, g, a, I): return alloc(ex, g, mul(a[0], a[1]), I, True)
def alloc(ex, g, size, I, zero=False):
    from .sym import Fam, Unsupported
    nm = ex.fresh('heap@%s:%s' % (ex.stack[-1][0].name if ex.stack else '?', I.dbg if I is not None else ''))
    f = Fam(nm, fresh=not zero, zero=zero); f.size = size; f.alloc_guard = g
    fails = ex.alloc_fails if getattr(ex, 'alloc_fails', None) else None
    b = fails(ex, f, g) if fails else FALSE
    f.fails = b
    f.nullable = (lambda path, b=b: b) if b is not FALSE else False
    ex.allocs.append((f, g, I))
    return ptr(f)
@ext('realloc')
def _realloc(ex, g, a, I):
    from .sym import Unsupported
    p = alloc(ex, g, a[1], I)
    if a[0] is NULL: return p
    ex.copy(p, a[0], a[1], g)
    ex.events.append(('free', g, a[0], I))
    return p
@ext('free')
def _free(ex, g, a, I):
    ex.events.append(('free', g, a[0], I)); return None

@ext('_setjmp', 'setjmp', '__sigsetjmp')
def _setjmp(ex, g, a, I): return ZERO

@ext('llvm.va_start')
def _vastart(ex, g, a, I):
    from .sym import Fam, Unsupported
    F, va = ex.stack[-1]
    ap = a[0]
    # System V ABI: the register save area is declared exhausted, every argument lives in the overflow area
    f = Fam('varargs:' + F.name, fresh=True); f.S = 8
    off = 0
    for ty, v in va:
        ex.store(ptr(f, (), ic(off)), ty, v, g); off += 8
    from . import ir
    ex.store(ap, ir.I32, ic(48), g); ex.store(ex.padd(ap, ic(4)), ir.I32, ic(176), g)
    ex.store(ex.padd(ap, ic(8)), ir.PTR, ptr(f), g)
    ex.store(ex.padd(ap, ic(16)), ir.PTR, NULL, g)
    return None
@ext('llvm.va_end')
def _vaend(ex, g, a, I): return None
@ext('llvm.va_copy')
def _vacopy(ex, g, a, I):
    ex.copy(a[0], a[1], ic(24), g); return None

def cstring(ex, p, g):
    """literal characters of a constant string or None"""
    from . import ir
    if p.op != 'ptr': return None
    out = []
    for i in range(4096):
        c = ex.load(ex.padd(p, ic(i)), ir.I8, g)
        if c.op != 'c': return None
        if c.a[0] == 0: return bytes(out)
        out.append(c.a[0])
    return None
@ext('strcmp')
def _strcmp(ex, g, a, I):
    x, y = cstring(ex, a[0], g), cstring(ex, a[1], g)
    if x is None or y is None:
        from .sym import Unsupported
        raise Unsupported('strcmp on symbolic strings')
    return ic((x > y) - (x < y))
@ext('strlen')
def _strlen(ex, g, a, I):
    x = cstring(ex, a[0], g)
    if x is None:
        from .sym import Unsupported
        raise Unsupported('strlen of symbolic string')
    return ic(len(x))
