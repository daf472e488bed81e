"""Matrix-level contracts: a whole vector or matrix is one cell whose value is a term of matrix algebra.

Callers of the dense linear algebra routines are checked against the routines' contracts (their definitions, which C11 discharges on the
routines' own bodies, and the assumed definitions of the LAPACK factorisations).  Equality of matrix terms is decided by a non-commutative
normal form: a matrix polynomial over the input matrices, their transposes and inverses, with rational functions of the scalars as coefficients."""
from fractions import Fraction
import mpmath
from .terms import *
from . import terms as TM
from . import ir, sym, solve
from .sym import Fam, Unsupported
from .solve import RF, ONEP, pmul, padd_, TooBig

FNS = {'mm', 'mT', 'minv', 'E', 'sm', 'diag', 'dinvv', 'ones', 'lu', 'lul', 'piv', 'chol', 'symu', 'bad', 'dot', 'emul'}
MATFN = FNS - {'dot'}
def isz(x): return x is D0
def mm(a, b, *r):
    if r: return mm(mm(a, b), *r)
    if isz(a) or isz(b): return D0
    if a.op == 'fn' and a.a[0] == 'E': return b
    if b.op == 'fn' and b.a[0] == 'E': return a
    return dfn('mm', a, b)
def mT(a):
    if isz(a): return a
    if a.op == 'fn' and a.a[0] == 'E': return a
    if a.op == 'fn' and a.a[0] == 'mT': return a.a[1]
    return dfn('mT', a)
def inv(a): return dfn('minv', a)
E = dfn('E')
def sm(s, x):
    if s is D1: return x
    if isz(s) or isz(x): return D0
    return dfn('sm', s, x)
def diag(v): return D0 if isz(v) else dfn('diag', v)
def dot(a, b): return D0 if isz(a) or isz(b) else dfn('dot', a, b)
def symu(x): return D0 if isz(x) else dfn('symu', x)      # the symmetric matrix with the upper triangle of x
SYM = set()       # names of parameters that are symmetric matrices (a precondition)
def issym(t): return t.op == 'app' and str(t.a[0]).split('@')[0].split('.')[0] in SYM
def add_(*xs):
    r = D0
    for x in xs: r = dadd(r, x)
    return r

# ------------------------------------------------------------------ non-commutative normal form: word -> coefficient
INV = {}
def lk(l): return tuple(x.uid if isinstance(x, T) else wkey(x[1]) if isinstance(x, tuple) and x and x[0] == 'W' else x for x in l)
def wkey(w): return tuple(lk(l) for l in w)
def cone(): return RF(dict(ONEP), ONEP)
def cadd(x, y):
    if x.d == y.d: return RF(padd_(x.n, y.n), x.d)
    return RF(padd_(pmul(x.n, y.d), pmul(y.n, x.d)), pmul(x.d, y.d))
def cmul(x, y): return RF(pmul(x.n, y.n), pmul(x.d, y.d))
def padd(p, q):
    r = dict(p)
    for w, c in q.items():
        v = cadd(r[w], c) if w in r else c
        if v.n: r[w] = v
        else: r.pop(w, None)
    return r
def red(w):
    """one rewriting inv(P).lm(P) or lm(P).inv(P); None when irreducible"""
    for i, l in enumerate(w):
        if l[0] != 'inv': continue
        lm, c, rest = INV[l[1]][1]
        n = len(lm)
        if i + 1 < len(w) and w[i+1][0] == 'a' and all(set(x) <= {w[i+1]} for x in INV[l[1]][0]):      # inv(P(X)) X = X inv(P(X))
            return {w[:i] + (w[i+1], l) + w[i+2:]: cone()}
        if n and w[i+1:i+1+n] == lm: pre, post = w[:i], w[i+1+n:]; side = 0
        elif n and i >= n and w[i-n:i] == lm: pre, post = w[:i-n], w[i+1:]; side = 1
        else: continue
        ic_ = RF(dict(c.d), dict(c.n))
        out = {pre + post: ic_}
        for x, k in rest.items():
            y = pre + ((l,) + x if side == 0 else x + (l,)) + post
            out = padd(out, {y: cmul(RF({m: -v for m, v in k.n.items()}, k.d), ic_)})
        return out
    return None
def normal(p, budget=2000):
    done = {}; todo = dict(p); n = 0
    while todo:
        w, c = todo.popitem(); n += 1
        if n > budget: raise TooBig()
        r = red(w)
        if r is None: done = padd(done, {w: c})
        else: todo = padd(todo, {x: cmul(c, k) for x, k in r.items()})
    return done
def pm(p, q):
    if len(p)*len(q) > 20000: raise TooBig()
    r = {}
    for w, c in p.items():
        for x, k in q.items(): r = padd(r, {w + x: cmul(c, k)})
    return normal(r)
def rfkey(c): return (solve.poly_key(c.n), solve.poly_key(c.d))
def pkey(p): return tuple(sorted((wkey(w), rfkey(c)) for w, c in p.items()))
def mkinv(p):
    if list(p) == [()] : c = p[()]; return {(): RF(c.d, c.n)}
    # scale so that the coefficient of the leading word is canonical
    if len(p) == 1 and all(len(w) == 1 for w in p):
        (w, c), = p.items()
        if w[0][0] == 'inv': q = INV[w[0][1]][0]; return {x: cmul(k, RF(c.d, c.n)) for x, k in q.items()}
    k = pkey(p)
    if k not in INV:
        lm = max(p, key=lambda w: (len(w), wkey(w)))
        INV[k] = (p, (lm, p[lm], {w: c for w, c in p.items() if w != lm}))
    return {(('inv', k),): cone()}
def tr(p):
    r = {}
    for w, c in p.items():
        q = {(): c}
        for l in reversed(w):
            if l[0] == 'a': m = {(('a', l[1], not l[2] and not issym(l[1])),): cone()}
            elif l[0] == 'inv': m = mkinv(tr(INV[l[1]][0]))
            elif l[0] == 'diag': m = {(l,): cone()}
            else: raise TooBig()
            q = pm(q, m)
        r = padd(r, q)
    return r
def nc(t, memo):
    r = memo.get(t)
    if r is None: r = memo[t] = _nc(t, memo)
    return r
def scal(t, memo): return snf(t, memo.setdefault('scal', {}), memo)
def snf(t, m2, memo):
    """coefficient: rational function over scalar atoms; dot products are canonicalised"""
    ds = {}
    def go(x):
        if x.op == 'fn' and x.a[0] == 'dot':
            p = pm(tr(nc(x.a[1], memo)), nc(x.a[2], memo)); r = D0
            for w, c in sorted(p.items(), key=lambda z: wkey(z[0])):
                try: w2 = list(tr({w: cone()}).items())
                except TooBig: w2 = []
                key = min([w] + [z for z, _ in w2], key=wkey)
                at = mk('v', ('dot!%r' % (wkey(key),),), 'd')
                r = dadd(r, dmul(rfterm(c), at))
            return r
        if x.op in ('dadd', 'dmul', 'ddiv'): return {'dadd': dadd, 'dmul': dmul, 'ddiv': ddiv}[x.op](go(x.a[0]), go(x.a[1]))
        if x.op == 'dneg': return dneg(go(x.a[0]))
        return x
    return solve.nf(go(t), m2)
def rfterm(c):
    def pt(p):
        r = D0
        for m, k in p.items():
            x = dc(k)
            for a, e in m:
                for _ in range(abs(e)): x = dmul(x, a)
            r = dadd(r, x)
        return r
    return ddiv(pt(c.n), pt(c.d))
def _nc(t, memo):
    op, a = t.op, t.a
    if t is D0: return {}
    if op == 'dadd': return padd(nc(a[0], memo), nc(a[1], memo))
    if op == 'dneg': return {w: RF({m: -v for m, v in c.n.items()}, c.d) for w, c in nc(a[0], memo).items()}
    if op == 'fn' and a[0] in FNS:
        n = a[0]
        if n == 'E': return {(): cone()}
        if n == 'mm': return pm(nc(a[1], memo), nc(a[2], memo))
        if n == 'mT': return tr(nc(a[1], memo))
        if n == 'sm':
            k = scal(a[1], memo)
            if not k.n: return {}
            return {w: cmul(k, c) for w, c in nc(a[2], memo).items()}
        if n == 'minv': return mkinv(nc(a[1], memo))
        if n == 'diag':
            r = {}
            for w, c in nc(a[1], memo).items(): r = padd(r, {(('diag', ('W', w)),): c})
            return r
        if n == 'symu':
            p = nc(a[1], memo)
            if pkey(tr(p)) == pkey(p): return p
        return {(('a', mk('fn', (n,) + tuple(canon(x, memo) for x in a[1:]), 'd'), False),): cone()}
    if op in ('v', 'app'): return {(('a', t, False),): cone()}
    raise TooBig()
def canon(x, memo):
    try: p = nc(x, memo)
    except TooBig: return x
    return mk('ncf', (pkey(p),), 'd')
def hasmat(t, memo=None):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'fn' and x.a[0] in FNS: return True
        st.extend(subterms(x))
    return False
def scalar(t, kinds):
    if t.op in ('dmul', 'ddiv'): return True
    if t.op == 'fn': return t.a[0] not in MATFN
    if t.op in ('dadd', 'dneg'): return any(scalar(x, kinds) for x in t.a)
    return False
def nc_zero(t):
    if scalar(t, None):
        memo = {}
        return not snf(t, {}, memo).n
    return not nc(t, {})

# ------------------------------------------------------------------ evaluation at random 3x3 matrices
NN = 3
def ev(n, xs):
    z = lambda x: isinstance(x, mpmath.matrix)
    if n == 'E': return mpmath.eye(NN)
    if n in ('mm',):
        if not (z(xs[0]) and z(xs[1])): return xs[0]*xs[1]
        return xs[0]*xs[1]
    if n == 'mT': return xs[0].T if z(xs[0]) else xs[0]
    if n == 'minv': return mpmath.inverse(xs[0]) if z(xs[0]) else 1/xs[0]
    if n == 'sm': return xs[0]*xs[1]
    if n == 'diag': return mpmath.diag([xs[0][i] for i in range(NN)]) if z(xs[0]) else xs[0]
    if n == 'dinvv': return mpmath.matrix([1/xs[0][i] for i in range(NN)])
    if n == 'ones': return mpmath.matrix([1]*NN)
    if n == 'dot': return (xs[0].T*xs[1])[0]
    if n == 'symu': return mpmath.matrix([[xs[0][min(i, j), max(i, j)] for j in range(NN)] for i in range(NN)])
    # uninterpreted: a fixed generic function of the argument
    k = {'lu': 3, 'lul': 7, 'piv': 5, 'chol': 11, 'bad': 13, 'emul': 17}[n]; r = mpmath.mpf(k)/7
    out = mpmath.matrix(NN, NN)
    for j, x in enumerate(xs):
        if z(x):
            for i in range(NN):
                for l in range(NN): out[i, l] += mpmath.sin(r*(i+2*l+1) + (j+1)*sum(x[q]*(q+1+i*l) for q in range(NN)) if x.cols == 1 else r*(i+2*l+1) + (j+1)*x[i, l])
        else: out += mpmath.mpf(x)*r
    return out
def mclose(x, y, tol):
    z = lambda v: isinstance(v, mpmath.matrix)
    if not z(x) and not z(y): return None
    if not z(x): x = y*0 + x
    if not z(y): y = x*0 + y
    if (x.rows, x.cols) != (y.rows, y.cols): return False
    d = max(abs(v) for v in x - y); s = max([1] + [abs(v) for v in x] + [abs(v) for v in y])
    return d <= tol*s
def point_atom(kinds):
    def f(pt, base, name, args):
        k = kinds.get(base)
        if k is None: return None
        cols = NN if k == 'M' else 1
        m = mpmath.matrix(NN, cols)
        sy = base in SYM
        for i in range(NN):
            for j in range(cols): m[i, j] = pt.rreal((name,) + tuple(args) + ((min(i, j), max(i, j)) if sy else (i, j)), Fraction(1, 32), Fraction(9, 32))
        return m
    return f

def mdiff(n, a, t, D):
    """tangent of a matrix operation"""
    if n == 'E' or n == 'ones': return D0
    if n == 'mm': return dadd(mm(D(a[0]), a[1]), mm(a[0], D(a[1])))
    if n == 'dot': return dadd(dot(D(a[0]), a[1]), dot(a[0], D(a[1])))
    if n == 'mT': return mT(D(a[0]))
    if n == 'minv': d = D(a[0]); return D0 if isz(d) else dneg(mm(mm(t, d), t))
    if n == 'sm': return dadd(sm(D(a[0]), a[1]), sm(a[0], D(a[1])))
    if n == 'diag': return diag(D(a[0]))
    raise ValueError('derivative of ' + n)

# ------------------------------------------------------------------ contracts of the callees
def bad(ex, what): 
    return dfn('bad', dc(abs(hash(what)) % 1000 + 1))
def handlers(n, nv=None, extra=None):
    """contracts of the dense linear algebra routines at whole-object level.  n: the dimension every object of the caller has
    (a parameter name or a function of the executor); a call with another dimension yields an unspecified value"""
    H = {}
    def L(ex, p, g): return ex.load(p, ir.DBL, g)
    def W(ex, p, v, g): ex.store(p, ir.DBL, v, g)
    def ok(ex, g, dims):
        N = n(ex) if callable(n) else n
        if N is None: return True
        for d in dims:
            if d is N: continue
            r = and_(g, not_(eq(d, N)))
            if r is FALSE: continue
            if ex.solver is not None and ex.solver(r): continue
            return False
        return True
    def same(p, q):
        if p is q: return True
        if p.op == 'ptr' and q.op == 'ptr': return p.a[0] is q.a[0] and p.a[1] == q.a[1]
        return False
    def op(name, ins, out, dims, f, alias=False, scal=()):
        """ins: argument positions of objects read, out: position written; f(values..., scalars...)"""
        def h(ex, g, args, I):
            vs = [L(ex, args[i], g) for i in ins] + [args[i] for i in scal]
            if not ok(ex, g, [args[i] for i in dims]): v = bad(ex, name + ' dims')
            elif not alias and any(i != out and same(args[i], args[out]) for i in ins): v = bad(ex, name + ' alias')
            else: v = f(*vs)
            W(ex, args[out], v, g)
        H[name] = h
    # vectors
    op('dvec_zero', [], 0, [1], lambda: D0)
    op('dvec_copy', [1], 0, [2], lambda a: a)
    op('dvec_init', [], 0, [2], lambda s: sm(s, dfn('ones')), scal=[1])
    op('dvec_scale', [1], 2, [3], lambda a, s: sm(s, a), True, scal=[0])
    op('dvec_add', [0, 1], 2, [3], dadd, True)
    op('dvec_sub', [0, 1], 2, [3], dsub, True)
    op('dvec_scale_add', [0, 1], 2, [4], lambda a, b, s: dadd(a, sm(s, b)), True, scal=[3])
    op('dvec_lin_cmb', [0, 2], 4, [5], lambda a, b, r, s: dadd(sm(r, a), sm(s, b)), True, scal=[1, 3])
    op('dvec_inv_elem', [0], 1, [2], lambda a: dfn('dinvv', a), True)
    op('dvec_mul_elem', [0, 1], 2, [3], lambda a, b: mm(diag(a), b), True)
    def h_dot(ex, g, args, I):
        a, b = L(ex, args[0], g), L(ex, args[1], g)
        return dot(a, b) if ok(ex, g, [args[2]]) else mk('app', ('ANY:dot',), 'd')
    H['dvec_dot'] = h_dot
    # matrices
    op('dmat_zero', [], 0, [1, 2], lambda: D0)
    op('dmat_init', [], 0, [2, 3], lambda s: sm(s, E), scal=[1])
    op('dmat_copy', [1], 0, [2, 3], lambda a: a)
    op('dmat_trans', [0], 1, [2, 3], mT)
    op('dmat_add', [0, 1], 2, [3, 4], dadd, True)
    op('dmat_sub', [0, 1], 2, [3, 4], dsub, True)
    op('dmat_i_sub', [0], 1, [2], lambda a: dsub(E, a), True)
    op('dmat_scale', [1], 2, [3, 4], lambda a, s: sm(s, a), True, scal=[0])
    op('dmat_scale_trans', [0], 1, [3, 4], lambda a, s: sm(s, mT(a)), scal=[2])
    op('dmat_scale_add', [0, 1], 2, [4, 5], lambda a, b, s: dadd(a, sm(s, b)), True, scal=[3])
    op('dmat_add_diag', [0, 1], 2, [3], lambda a, b: dadd(a, diag(b)), True)
    op('dmat_sub_diag', [0, 1], 2, [3], lambda a, b: dsub(a, diag(b)), True)
    op('dmat_diag_sub', [0, 1], 2, [3], lambda a, b: dsub(diag(a), b), True)
    op('dm_v_mul', [0, 1], 4, [2, 3], mm)
    op('dm_v_diag_mul', [0, 1], 2, [3], lambda a, b: mm(diag(a), b), True)
    op('dm_v_dinv_mul', [0, 1], 2, [3], lambda a, b: mm(diag(dfn('dinvv', a)), b), True)
    op('dmat_mul', [0, 1], 5, [2, 3, 4], mm)
    op('dmat_mul_diag', [0, 1], 2, [3, 4], lambda a, b: mm(a, diag(b)), True)
    op('dmat_diag_mul', [0, 1], 2, [3, 4], lambda a, b: mm(diag(a), b), True)
    op('dmat_mul_dinv', [0, 1], 2, [3, 4], lambda a, b: mm(a, diag(dfn('dinvv', b))), True)
    op('dmat_dinv_mul', [0, 1], 2, [3, 4], lambda a, b: mm(diag(dfn('dinvv', a)), b), True)
    def tsel(ex, g, f, x):
        if f.op == 'c': return mT(x) if f.a[0] else x
        return ite(eq0(f), x, mT(x))
    def lincmb(ex, g, beta, c, alpha, p):     # beta*c + alpha*p, c not read when beta is zero
        return dadd(sm(beta, c) if beta is not D0 else D0, sm(alpha, p))
    def h_gx(ex, g, args, I):
        ta, a, tb, b, al, c, be, m, nn, o = args
        A, B = tsel(ex, g, ta, L(ex, a, g)), tsel(ex, g, tb, L(ex, b, g)); C = L(ex, c, g) if be is not D0 else D0
        v = lincmb(ex, g, be, C, al, mm(A, B)) if ok(ex, g, [m, nn, o]) and not same(a, c) and not same(b, c) else bad(ex, 'gxgxmx')
        W(ex, c, v, g)
    H['dmat_gxgxmx'] = h_gx
    def h_gv(ex, g, args, I):
        ta, a, b, al, c, be, m, o = args
        A, B = tsel(ex, g, ta, L(ex, a, g)), L(ex, b, g); C = L(ex, c, g) if be is not D0 else D0
        W(ex, c, lincmb(ex, g, be, C, al, mm(A, B)) if ok(ex, g, [m, o]) and not same(b, c) else bad(ex, 'gxvxmx'), g)
    H['dmat_gxvxmx'] = h_gv
    def h_vv(ex, g, args, I):
        a, b, al, c, be, m, nn = args
        A, B = L(ex, a, g), L(ex, b, g); C = L(ex, c, g) if be is not D0 else D0
        W(ex, c, lincmb(ex, g, be, C, al, mm(A, mT(B))) if ok(ex, g, [m, nn]) else bad(ex, 'vxvtmx'), g)
    H['dmat_vxvtmx'] = h_vv
    op('dsym_mul', [0, 1], 4, [2, 3], mm)
    op('dsym_mma', [0, 1, 2, 3], 6, [4, 5], lambda a, b, c, d: dadd(mm(a, b), mm(c, d)))
    op('dsym_mms', [0, 1, 2, 3], 6, [4, 5], lambda a, b, c, d: dsub(mm(a, b), mm(c, d)))
    op('dsym_mta', [0, 1], 4, [2, 3], lambda a, b: dadd(mm(a, b), mT(mm(a, b))))
    op('dsym_add', [0, 1], 2, [3], lambda a, b, f: symu(dadd(a, b)) if f.op == 'c' and f.a[0] else dfn('bad', dc(1)), True, scal=[4])
    op('dsym_sub', [0, 1], 2, [3], lambda a, b, f: symu(dsub(a, b)) if f.op == 'c' and f.a[0] else dfn('bad', dc(1)), True, scal=[4])
    # assumed: LAPACK factorisations.  A factored matrix P holds lu(P); solving with it multiplies by the inverse
    def h_rf(ex, g, args, I):
        P = L(ex, args[0], g)
        okd = ok(ex, g, [args[1], args[2]])
        W(ex, args[0], dfn('lu', P) if okd else bad(ex, 'getrf'), g); W(ex, args[3], dfn('piv', P), g)
        return ZERO if I.ty.k == 'i' else None
    H['dmat_getrf'] = h_rf
    def solveval(ex, g, lu, X, piv, trans, okd):
        if lu.op == 'ite': return ite(lu.a[0], solveval(ex, g, lu.a[1], X, piv, trans, okd), solveval(ex, g, lu.a[2], X, piv, trans, okd))
        if piv.op == 'ite': return ite(piv.a[0], solveval(ex, g, lu, X, piv.a[1], trans, okd), solveval(ex, g, lu, X, piv.a[2], trans, okd))
        if not okd or not (lu.op == 'fn' and lu.a[0] == 'lu' and piv.op == 'fn' and piv.a[0] == 'piv' and lu.a[1] is piv.a[1]): return dfn('bad', lu, X, piv)
        return mm(X, inv(mT(lu.a[1]))) if trans else mm(X, inv(lu.a[1]))
    def h_rs(ex, g, args, I):      # rows of X solved against P: X := X inv(P^T)
        return rs(ex, g, args, I, True)
    def rs(ex, g, args, I, tr_):
        if args[3] is ONE:          # a single right-hand side: v := inv(P) v
            q = ex.load(args[1], ir.PTR, g)
            P, X, pv = L(ex, args[0], g), L(ex, q, g), L(ex, args[4], g)
            W(ex, q, solvevec(P, X, pv, tr_, ok(ex, g, [args[2]])), g); return ZERO if I.ty.k == 'i' else None
        P, X, pv = L(ex, args[0], g), L(ex, args[1], g), L(ex, args[4], g)
        W(ex, args[1], solveval(ex, g, P, X, pv, tr_, ok(ex, g, [args[2], args[3]])), g)
        return ZERO if I.ty.k == 'i' else None
    def solvevec(lu, X, piv, tr_, okd):
        if lu.op == 'ite': return ite(lu.a[0], solvevec(lu.a[1], X, piv, tr_, okd), solvevec(lu.a[2], X, piv, tr_, okd))
        if piv.op == 'ite': return ite(piv.a[0], solvevec(lu, X, piv.a[1], tr_, okd), solvevec(lu, X, piv.a[2], tr_, okd))
        if not okd or not (lu.op == 'fn' and lu.a[0] == 'lu' and piv.op == 'fn' and piv.a[0] == 'piv' and lu.a[1] is piv.a[1]): return mm(dfn('bad', lu, piv), X)
        return mm(inv(lu.a[1]) if tr_ else inv(mT(lu.a[1])), X)
    H['dmat_getrs'] = h_rs
    def h_rs2(ex, g, args, I):
        t = args[0]
        if t.op != 'c': raise Unsupported('dmat_getrs2 with a variable flag')
        return rs(ex, g, args[1:], I, chr(t.a[0] & 255) == 'n')
    H['dmat_getrs2'] = h_rs2
    # work arrays: a fresh object per request, contents unspecified
    fams = {}
    def fam_for(ex, I, kind, g=None):
        key = (id(ex), tuple(id(f[0]) for f in ex.stack), id(I))
        f = fams.get(key)
        if f is None: f = fams[key] = Fam('work:%d' % len(fams)); f.keep = (ex, I); f.scratch = True
        return f
    def h_w1(ex, g, args, I):
        f = fam_for(ex, I, 1); q = ptr(f)
        W(ex, q, UNDEF['d'], g)
        return q
    def h_w2(ex, g, args, I):
        return ptr(fam_for(ex, I, 2))
    H['work_get1'] = h_w1; H['work_get2'] = h_w2; H['work_get3'] = h_w2
    H.update(extra or {})
    return H

# ------------------------------------------------------------------ restricting element access
def nullstruct(S, name='save_tree'):
    """by-value structure whose pointers are null (no saved intermediate results requested)"""
    f = Fam(name)
    f.init = lambda ex, fam, path, r, ty, g: NULL if ty.k == 'ptr' else ZERO if ty.k == 'i' else D0
    return ptr(f)
def workstruct(S):
    f = Fam('workstruct'); f.init = lambda ex, fam, path, r, ty, g: ptr(fam.child(str(r))) if ty.k == 'ptr' else ZERO
    return ptr(f)

def assumptions(ctx):
    ctx.assume('dense linear algebra routines are used through their contracts (definitions): those of C11 are discharged there on the routines\' own bodies',
               'LAPACK getrf/getrs/potrf/potrs: solving with a factored matrix multiplies by its inverse; factored matrices are non-singular',
               'work_get1/2/3 return arrays distinct from every array in use (C09)', 'a vector or matrix is accessed only through these routines (element access makes the obligation undecided)')

def qstore(ex, base, k, val, g, inst=None):
    """*(base + k) = val for every value of the bound variable k that satisfies g"""
    from .ir import Ty
    p = ex.padd(base, scale(8, k)); old = {}
    def fams(p):
        if p.op == 'ite': fams(p.a[1]); fams(p.a[2])
        elif p.op == 'ptr': old[p.a[0]] = len(p.a[0].log)
    fams(p); ex.store(p, Ty('double'), val, g, inst)
    for f, n in old.items():
        for e in f.log[n:]: e.qv = (k,)
