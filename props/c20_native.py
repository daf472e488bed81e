"""C20, the real code: the wrappers linked with stand-ins of the native functions that record what they are given.
Generated from the same definition as the obligations; every wrapper is called with distinct arguments on handles of random dimensions."""
import os, subprocess, random
from vf import build
CT = {'i': 'int', 'd': 'double', 'p': 'void *'}

def decl(S, extra=''): return ', '.join(['void *d'] + [('void *' if A.ptr else CT[A.ty] + ' ') + A.name for A in S.args])
def stubs(prefix, SP):
    t = '''#include <stdio.h>
struct rec N; int kernel_n_params(int k) { return 1 + k % 4; }
'''
    t = REC + t
    for q, S in enumerate(SP.values()):
        t += '%s %s_%s(%s) { N.calls++; N.id = %d; N.d = d; ' % ('double' if S.ret == 'd' else 'int', prefix, S.name, decl(S), q)
        for k, A in enumerate(S.args):
            if A.ptr: t += 'take(%d, %s); ' % (k, A.name)
            elif A.ty == 'd': t += 'N.v[%d] = %s; ' % (k, A.name)
            else: t += 'N.i[%d] = %s; ' % (k, A.name)
        t += 'return %s; }\n' % ('N.dret' if S.ret == 'd' else 'N.ret')
    return t
REC = '''
struct rec { int calls, id, ret; double dret; void *d; long i[24]; double v[24]; void *p[24]; int rank[24], dim[24][6]; void *base[24]; int bad[24]; };
extern struct rec N;
static void walk(int k, int l, void *t, long off) {
    int i; if (l == N.rank[k] - 1) { if ((char *) t != (char *) N.base[k] + 8*off*N.dim[k][l]) N.bad[k] = 1; return; }
    for (i = 0; i < N.dim[k][l] && ! N.bad[k]; ++i) walk(k, l + 1, ((void **) t)[i], off*N.dim[k][l] + i);
}
static void take(int k, void *p) { N.p[k] = p; if (N.rank[k] > 1) { N.bad[k] = 0; walk(k, 0, p, 0); } }
'''
def main_c(lang, prefix, SP, wname):
    t = '#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <gutil.h>\n#include <xrtm_interface.h>\n' + ('#include <xrtm_fd_interface.h>\n' if prefix == 'xrtm_fd' else '')
    t += REC.replace('static void take', '__attribute__((unused)) static void take') + '#define SAY(f, w) do { printf("FAIL %s: %s\\n", f, w); bad = 1; } while (0)\nstatic int bad; static unsigned long long s_ = 88172645463325252ULL; static int rnd(int a, int b) { s_ ^= s_ << 13; s_ ^= s_ >> 7; s_ ^= s_ << 17; return a + (int) (s_ % (b - a + 1)); }\nstatic double MEM[24][70000];\nstatic int KN[8];\n'
    run = ''
    for q, S in enumerate(SP.values()):
        w = wname.get(S.name)
        if w is None: continue
        ref = lang in ('f77', 'for')
        sub = lang == 'for' and not (S.flag)
        if lang == 'for': rt = 'void' if sub else ('double' if S.ret == 'd' else 'int')
        else: rt = 'double' if S.ret == 'd' and S.flag else 'int'
        ps = ['void *'] + ['void *' if A.ptr else (('int *' if A.ty == 'i' else 'double *') if ref else CT[A.ty]) for A in S.args] + (['int *'] if sub else [])
        t += '%s %s(%s);\n' % (rt, w, ', '.join(ps))
        t += 'static void t_%d(int mode) { static union { xrtm_data x; char c[sizeof(xrtm_data) + 65536]; } X; %s xrtm_data *x = &X.x; int i, err = 7; (void) err; (void) i;\n' % (q, 'static union { xrtm_fd_data f; char c[sizeof(xrtm_fd_data) + 64]; } Y; xrtm_fd_data *d = &Y.f;' if prefix == 'xrtm_fd' else 'xrtm_data *d = &X.x;')
        if prefix == 'xrtm_fd': t += ' d->d = x; d->n_derivs = rnd(1, 6);\n'
        t += ' x->n_layers = rnd(1, 5); x->n_derivs = rnd(1, 5); x->n_stokes = rnd(1, 4); x->n_elem = rnd(1, 6); x->n_coef = rnd(1, 7); x->n_out_levels = rnd(1, 4); x->n_out_thetas = rnd(1, 3); x->n_out_thetas_2 = rnd(1, 6); x->n_quad = rnd(1, 6); x->n_kernels = 3; x->n_ulevels = rnd(1, 4); x->n_umus = rnd(0, 4); for (i = 0; i < 8; ++i) KN[i] = rnd(0, 6); x->kernels = (void *) KN; static int NC[8]; for (i = 0; i < 8; ++i) NC[i] = rnd(1, 7); x->n_coef_layer = NC;\n'
        t += ' memset(&N, 0, sizeof N); N.id = -1;\n'
        n = 0
        for k, A in enumerate(S.args):
            if A.ptr: t += ' void *%s = MEM[%d]; (void) %s;\n' % (A.name, k, A.name)
            elif A.ty == 'i': t += ' int %s = %s; (void) %s;\n' % (A.name, 'rnd(0, 2)' if 'kernel' in A.name else 'rnd(1, 6)', A.name)
            else: t += ' double %s = %d.5 + rnd(0, 9)*.01; (void) %s;\n' % (A.name, k + 1, A.name)
        for k, A in enumerate(S.args):
            if A.rank > 1 and lang in ('f77', 'f90'):
                t += ' N.rank[%d] = %d; N.base[%d] = %s;' % (k, A.rank, k, A.name)
                for j, e in enumerate(A.dims): t += ' N.dim[%d][%d] = %s;' % (k, j, e)
                t += '\n'
        t += ' N.ret = mode == 0 ? 0 : mode == 1 ? 5 : XRTM_INT_ERROR; N.dret = mode == 0 ? 0. : mode == 1 ? 2.25 : XRTM_DBL_ERROR; if (mode == 1 && ! %d) N.ret = 0; %s r;\n' % (S.flag, rt if rt != 'void' else 'int')
        a = ['d'] + [A.name if A.ptr or not ref else '&' + A.name for A in S.args] + (['&err'] if sub else [])
        t += ' %s%s(%s); %s\n' % ('' if rt == 'void' else 'r = ', w, ', '.join(a), 'r = err;' if rt == 'void' else '')
        t += ' if (N.calls != 1 || N.id != %d) { SAY("%s", "the native function of its name is not called once"); return; } if (N.d != (void *) d) SAY("%s", "the handle");\n' % (q, w, w)
        for k, A in enumerate(S.args):
            if A.ptr:
                if A.rank < 2 or lang not in ('f77', 'f90'): 
                    if not (A.rank > 1): t += ' if (N.p[%d] != %s) SAY("%s", "argument %s");\n' % (k, A.name, w, A.name)
                else: t += ' if (N.bad[%d]) SAY("%s", "the index table of %s");\n' % (k, w, A.name)
            elif A.ty == 'd': t += ' if (N.v[%d] != %s) SAY("%s", "argument %s");\n' % (k, A.name, w, A.name)
            else: t += ' if (N.i[%d] != %s) SAY("%s", "argument %s");\n' % (k, A.name, w, A.name)
        if S.flag: t += ' if (r != %s) SAY("%s", "the value is not returned");\n' % ('N.dret' if S.ret == 'd' else 'N.ret', w)
        else: t += ' if ((r != 0) != (mode == 2)) SAY("%s", "the status is not returned");\n' % w
        t += '}\n'; run += '  t_%d(m);\n' % q
    return t + 'int main(void) { int k, m; for (k = 0; k < 60 && ! bad; ++k) { m = k % 3;\n' + run + ' }\n return bad; }\n'

def main_cpp(prefix, SP):
    cls = prefix + '_int_cpp'
    t = '#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <gutil.h>\n#include <xrtm_interface.h>\n' + ('#include <xrtm_fd_interface.h>\n' if prefix == 'xrtm_fd' else '') + '#include <%s.h>\n' % cls
    t += 'extern "C" {' + REC.replace('static void take', '__attribute__((unused)) static void take') + '}\nstatic int bad; static char MEM[24][64];\n#define SAY(f, w) do { printf("FAIL %s: %s\\n", f, w); bad = 1; } while (0)\n'
    def chk(q, S):
        r = ' if (N.calls != 1 || N.id != %d) SAY("%s", "the native function of its name is not called once"); else {\n' % (q, S.name)
        if S.name != 'create': r += ' if (N.d != H) SAY("%s", "the handle");' % S.name
        for k, A in enumerate(S.args): r += ' if (%s) SAY("%s", "argument %s");\n' % ('N.p[%d] != MEM[%d]' % (k, k) if A.ptr else 'N.v[%d] != %d.25' % (k, k) if A.ty == 'd' else 'N.i[%d] != %d' % (k, 31 + k), S.name, A.name)
        return r + '}\n'
    C = SP['create']; ids = {S.name: q for q, S in enumerate(SP.values())}
    body = ''
    t += 'template <class R, class... A, class... B> R go(%s *o, R (%s::*f)(A...), B... b) { return (o->*f)((A) b...); }\n' % (cls, cls)
    conv = lambda S: ''.join(', ' + ('MEM[%d]' % k if A.ptr else '%d.25' % k if A.ty == 'd' else '%d' % (31 + k)) for k, A in enumerate(S.args))
    t += 'static void *H;\nstatic %s *make() { memset(&N, 0, sizeof N); return new %s(%s); }\n' % (cls, cls, ', '.join('(%s *) MEM[%d]' % ((cls + '::' + A.cxx if A.cxx == 'kernel_type' else A.cxx), k) if A.ptr else '%d' % (31 + k) for k, A in enumerate(C.args)))
    t += 'int main(void) { int m, thrown; %s *o = make(); H = N.d;\n' % cls + chk(ids['create'], C)
    for S in SP.values():
        q = ids[S.name]
        if S.name in ('create', 'destroy'): continue
        t += ' for (m = 0; m < 3; ++m) { memset(&N, 0, sizeof N); N.id = -1; thrown = 0; N.ret = m == 0 ? 0 : m == 1 ? %d : XRTM_INT_ERROR; N.dret = m == 0 ? 0. : m == 1 ? 2.25 : XRTM_DBL_ERROR;\n' % (5 if S.flag else 0)
        call = 'go(o, &%s::%s%s)' % (cls, S.name, conv(S))
        if S.flag: t += '  try { double v = %s; if (m < 2 && v != %s) SAY("%s", "the value is not returned"); } catch (...) { thrown = 1; }\n' % (call, 'N.dret' if S.ret == 'd' else 'N.ret', S.name)
        else: t += '  try { %s; } catch (...) { thrown = 1; }\n' % call
        t += '  if (thrown != (m == 2)) SAY("%s", "an error is not reported");\n' % S.name + chk(q, S) + ' }\n'
    t += ' memset(&N, 0, sizeof N); delete o; if (N.calls != 1 || N.id != %d || N.d != H) SAY("destructor", "the native destroy is not called"); return bad; }\n' % ids['destroy']
    return t

def build_run(lang, prefix, SP, src, wname, extra=()):
    d = os.path.join(build.scratch(), 'c20_%s_%s' % (lang, prefix)); os.makedirs(d, exist_ok=True)
    fl = ['-w', '-O1', '-g'] + build.cflags()
    def sh(c):
        r = subprocess.run(c, capture_output=True, text=True, timeout=120)
        if r.returncode: raise RuntimeError(' '.join(c[:1]) + ': ' + r.stderr[-400:])
    open(d + '/stub.c', 'w').write(stubs(prefix, SP)); sh(['gcc', *fl, '-c', '-o', d + '/stub.o', d + '/stub.c'])
    objs = [d + '/stub.o']
    if lang == 'cpp':
        open(d + '/main.cpp', 'w').write(main_cpp(prefix, SP)); sh(['g++', *fl, '-fpermissive', '-c', '-o', d + '/main.o', d + '/main.cpp'])
    else:
        open(d + '/main.c', 'w').write(main_c(lang, prefix, SP, wname)); sh(['gcc', *fl, '-c', '-o', d + '/main.o', d + '/main.c'])
    objs.append(d + '/main.o')
    for k, s in enumerate([src, *extra]):
        p = s if os.path.isabs(s) else os.path.join(build.REPO, s); o = d + '/w%d.o' % k
        if p.endswith('.cpp'): sh(['g++', *fl, '-c', '-o', o, p])
        elif p.endswith('.f'): sh(['gfortran', '-w', '-O0', '-ffixed-line-length-none', '-I' + os.path.dirname(p), '-c', '-o', o, p])
        else: sh(['gcc', *fl, '-c', '-o', o, p])
        objs.append(o)
    sh(['g++', '-o', d + '/t', *objs, '-Wl,--unresolved-symbols=ignore-all', '-lm'])
    r = subprocess.run([d + '/t'], capture_output=True, text=True, timeout=60)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith('FAIL')], d
