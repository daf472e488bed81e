"""Check driver: obligations, evidence, violations, known findings."""
import os, sys, json, time, traceback
from . import build, sym, solve, prove, contract, terms as TM
from .sym import Unsupported
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    def __init__(s, prop, tier, seed, budget):
        s.prop, s.tier, s.seed = prop, tier, seed; s.t0 = time.time(); s.budget = budget
        s.obl = []          # (name, status, how)  status: discharged | violated | undecided | bounded
        s.viol = []; s.assumptions = set(); s.functions = set(); s.trusted = set(); s.summ = s.unr = 0; s.notes = []; s.known = []
        s.mods = {}; s.native_done = False
        prove.DEADLINE[0] = s.t0 + budget
        kf = os.path.join(HERE, 'known-findings.txt'); s.kf = []
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith('known: property=%s ' % prop): s.kf.append(l[len('known: property=%s ' % prop):])
    def left(s): return s.budget - (time.time() - s.t0)
    def load(s, *srcs):
        ms = []
        need = [x for x in srcs if x not in s.mods]
        if need:
            for x, m in zip(need, build.load(need)): s.mods[x] = m
        return [s.mods[x] for x in srcs]
    def stat(s, ex):
        s.functions |= {f for f in ex.called if f in ex.funcs}
        s.trusted |= {f for f in ex.called if f not in ex.funcs or f in ex.contracts}
        s.summ += ex.loops_summarised; s.unr += ex.loops_unrolled
    def par(s, items, f, jobs=None):
        """f(ctx, item) for every item in forked workers; the recorded obligations are merged"""
        items = list(items); jobs = min(jobs or os.cpu_count() or 1, len(items))
        if jobs <= 1 or os.environ.get('VF_SEQ'):
            for x in items: f(s, x)
            return
        sys.stdout.flush(); sys.stderr.flush()
        qr, qw = os.pipe()
        os.write(qw, b''.join(i.to_bytes(4, 'big') for i in range(len(items)))); os.close(qw)
        kids = []
        for j in range(jobs):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    limit_memory(5); os.close(r); out = []; base = dict(solve._stats)
                    while True:
                        b = os.read(qr, 4)
                        if len(b) < 4: break
                        i = int.from_bytes(b, 'big')
                        s.obl, s.viol, s.known, s.notes = [], [], [], []; s.functions = set(); s.trusted = set(); s.assumptions = set(); s.summ = s.unr = 0
                        try: f(s, items[i])
                        except Exception as e: s.undecided('item %d' % i, '%s: %s' % (type(e).__name__, e))
                        out.append(dict(i=i, obl=s.obl, viol=s.viol, known=s.known, notes=s.notes, functions=sorted(s.functions), trusted=sorted(s.trusted), assumptions=sorted(s.assumptions), summ=s.summ, unr=s.unr))
                    st = {k: solve._stats[k] - base.get(k, 0) for k in solve._stats}
                    with os.fdopen(w, 'w') as fo: json.dump(dict(out=out, st=st), fo, default=str)
                    rc = 0
                except BaseException: traceback.print_exc()
                finally: sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
            os.close(w); kids.append((pid, r))
        os.close(qr); res = []
        for pid, r in kids:
            with os.fdopen(r) as fi: t = fi.read()
            os.waitpid(pid, 0)
            if not t: s.undecided('worker', 'a worker process ended without an answer'); continue
            d = json.loads(t); res += d['out']
            for k, v in d['st'].items(): solve._stats[k] = solve._stats.get(k, 0) + v
        for d in sorted(res, key=lambda d: d['i']):
            s.obl += [tuple(o) for o in d['obl']]; s.viol += [tuple(v) for v in d['viol']]; s.known += d['known']; s.notes += d['notes']
            s.functions |= set(d['functions']); s.trusted |= set(d['trusted']); s.assumptions |= set(d['assumptions']); s.summ += d['summ']; s.unr += d['unr']
    def assume(s, *xs): s.assumptions.update(xs)
    def ok(s, name, how): s.obl.append((name, 'bounded' if how == 'pit' else 'discharged', how))     # agreement at random points is not a proof
    def bounded(s, name, how): s.obl.append((name, 'bounded', how))
    def run_native(s, name, what):
        """a bounded check: the program replay/<property>.c exercises the real code; labelled bounded, never counted as proved"""
        s.native_done = True; out = native_search(s.prop)
        if out: s.violation(name, out, dict(program=PROGRAM.get(s.prop, 'replay/%s.c' % s.prop), output=out), True)
        elif out == '': s.bounded(name, what)
        else: s.undecided(name, 'the replay program could not be run')
    def undecided(s, name, why): s.obl.append((name, 'undecided', str(why)[:300])); print('UNDECIDED %s: %s' % (name, str(why)[:300]))
    def violation(s, name, detail, data=None, confirmed=False):
        """a failed obligation"""
        for k in s.kf:
            if name == k.split(' | ')[0].strip():
                print('KNOWN-FINDING: property=%s %s' % (s.prop, name)); s.known.append(name); s.obl.append((name, 'known', '')); return
        s.obl.append((name, 'violated', detail[:500])); s.viol.append((name, detail, data, confirmed))
    def result(s, name, r, bounded=False):
        """record a prove.Result"""
        if r.ok: (s.bounded if bounded else s.ok)(name, r.how)
        elif r.ok is None: s.undecided(name, r.detail)
        else: s.violation(name, '%s; when %s' % (r.detail, TM.pp(r.guard)[:600] if r.guard is not None else ''), point_data(r.point))
    def check(s, C, *srcs, mods=None):
        """a function contract; unbounded first, then the labelled bounded fall-back"""
        mods = mods or s.load(*srcs)
        t = time.time()
        try: res = contract.check_contract(s, mods, C); b = False
        except (Unsupported, solve.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, prove.OutOfTime) as e:
            why = '%s: %s' % (type(e).__name__, e)
            if os.environ.get('VF_TRACE'): traceback.print_exc()
            res = None
            s.notes.append('%s: outside the unbounded prover (%s)' % (C.fn, str(why)[:200]))
        if res is None or any(r.ok is None for _, r, _ in res):
            if C.shapes:
                res0 = res; res = []
                for sh in C.shapes:
                    try: res += contract.check_contract(s, mods, C, sh)
                    except (Unsupported, solve.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, prove.OutOfTime) as e:
                        if os.environ.get('VF_TRACE'): traceback.print_exc()
                        s.undecided(C.fn + str(sh), '%s: %s' % (type(e).__name__, e))
                b = True
            elif res is None:
                s.undecided(C.fn, why); return
            else: b = False
        for name, r, info in res:
            if r.ok: (s.bounded if b else s.ok)(name, r.how)
            elif r.ok is None: s.undecided(name, r.detail)
            else:
                st, data = contract.confirm(name, r, info, s)
                if st == 'refuted':
                    s.undecided(name, 'the verifier disagrees with the contract but the real code agrees with it at the witness: %s' % (r.detail,)); continue
                s.violation(name, r.detail + '; when ' + (TM.pp(r.guard)[:500] if r.guard is not None else ''), data if st == 'confirmed' else dict(note=data, point=point_data(r.point)), st == 'confirmed')
        if os.environ.get('VF_TIME'): print('%-40s %.2fs %d obligations%s' % (C.fn, time.time()-t, len(res), ' BOUNDED' if b else ''))

    def finish(s, level='proof', floor=1, technique=''):
        disch = [o for o in s.obl if o[1] == 'discharged']; tot = len(s.obl)
        by = {}
        for o in s.obl:
            if o[1] in ('discharged', 'bounded'): by[(o[1], o[2])] = by.get((o[1], o[2]), 0) + 1
        if tot < floor: s.undecided('vacuity guard', 'only %d obligations generated, at least %d expected' % (tot, floor))
        und = [o for o in s.obl if o[1] == 'undecided']
        if not und and not s.viol and not s.native_done and (s.prop in NATIVE or os.path.exists(os.path.join(HERE, 'replay', s.prop + '.c'))):
            out = native_search(s.prop)      # beside the proof: the replay program on the real code (bounded, covers what the contracts assume)
            if out: s.violation('replay/%s.c on the real code' % s.prop, out, dict(program=PROGRAM.get(s.prop, 'replay/%s.c' % s.prop), output=out), True)
            elif out == '': s.bounded('replay/%s.c on the real code' % s.prop, 'native'); tot += 1
            else: s.notes.append('the replay program could not be run')
        if und and not s.viol:      # a bounded check of the real code stands in for the obligations that could not be decided
            out = native_search(s.prop)
            if out: s.violation('bounded check of the real code, standing in for %d undecided obligations (%s)' % (len(und), und[0][0]), out, dict(program=PROGRAM.get(s.prop, 'replay/%s.c' % s.prop), output=out), True)
            elif out == '': s.notes.append('undecided obligations: the bounded check replay/%s.c of the real code found no failing input' % s.prop)
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level,
                  coverage=dict(obligations=tot, discharged=len(disch), bounded=sum(1 for o in s.obl if o[1] == 'bounded'), undecided=[o[0] + ': ' + o[2] for o in s.obl if o[1] == 'undecided'],
                                known=s.known, by_backend={'%s/%s' % k: v for k, v in by.items()}, functions_under_contract=sorted(s.functions), loops_summarised=s.summ, loops_unrolled=s.unr,
                                solver_time_s=round(solve._stats['z3_time'], 2), solver_queries=solve._stats['z3'], notes=s.notes,
                                checker_cmd='python3-vt /verif/check.py %s --tier %s' % (s.prop, s.tier), trusted_base=sorted(s.trusted)),
                  assumptions=sorted(s.assumptions | BASE), wall_s=round(time.time() - s.t0, 2), violations=len(s.viol))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', s.prop + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d bounded, %d undecided, %d violated; %.1fs' % (s.prop, tot, len(disch), ev['coverage']['bounded'], len(ev['coverage']['undecided']), len(s.viol), time.time()-s.t0))
        if s.viol:
            rp = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, s.prop + '.json')
            json.dump([dict(obligation=n, detail=d, replay=dt, confirmed_on_real_code=c) for n, d, dt, c in s.viol], open(path, 'w'), indent=1, default=str)
            for n, d, dt, c in s.viol[:8]: print('FAILED OBLIGATION %s\n   %s' % (n, d[:600]))
            conf = any(c for _, _, _, c in s.viol)
            if not conf:
                out = native_search(s.prop)
                if out:
                    conf = True; L_ = json.load(open(path)); L_.append(dict(obligation='replay on the real code', detail=out, program='replay/%s.c' % s.prop)); json.dump(L_, open(path, 'w'), indent=1)
                    print('FAILING INPUT on the real code: ' + out.strip()[-600:])
            print('VIOLATION property=%s replay=%s%s' % (s.prop, path, '' if conf else ' no-failing-input-found'))
            return 1
        return 0
BASE = {'doubles are treated as mathematical reals (rounding is not modelled)', 'signed integer arithmetic does not overflow; size arithmetic does not wrap', 'distinct pointer parameters do not overlap',
        'the LLVM-IR translator, the symbolic executor (vf/sym.py, vf/loops.py) and the term simplifier are trusted', 'clang -O1 with passes disabled plus sroa/simplifycfg/loop-simplify/lcssa preserve the semantics of the sources'}

def limit_memory(gb):
    """a run that consumes more than this (a planted bug may loop) must not take the machine down"""
    import resource
    b = gb << 30; resource.setrlimit(resource.RLIMIT_AS, (b, resource.getrlimit(resource.RLIMIT_AS)[1]))

PROGRAM = {'C20': 'props/c20_native.py'}
NATIVE = {}       # properties whose native search is generated instead
def native_search(prop, libs=('-lopenblas', '-llapack', '-lm')):
    """a failed obligation without a concrete witness: the program replay/<property>.c searches the real code (current sources of the
    repository) for an input on which the property fails; its output, or None"""
    import subprocess
    from . import native
    if prop in NATIVE:
        try: return NATIVE[prop]()
        except Exception as e: print('NOTE replay: %r' % (e,)); return None
    src = os.path.join(HERE, 'replay', prop + '.c')
    if not os.path.exists(src): return None
    try:
        lib = native.library(); exe = os.path.join(build.scratch(), 'replay_' + prop)
        r = subprocess.run(['gcc', '-w', '-g', '-O1', '-fopenmp', '-o', exe, src] + build.cflags() + [lib, '-Wl,-rpath,' + os.path.dirname(lib), '-Wl,--unresolved-symbols=ignore-all'] + list(libs), capture_output=True, text=True)
        if r.returncode: print('NOTE replay program does not build: ' + r.stderr[-300:]); return None
        r = subprocess.run([exe], capture_output=True, text=True, timeout=150, preexec_fn=lambda: limit_memory(3), cwd=build.scratch(), env=dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1'))
        if r.returncode: return 'exit %d: %s' % (r.returncode, (r.stdout[-1500:] + r.stderr[-300:]))
        return ''
    except Exception as e: print('NOTE replay: %r' % (e,))
    return None

def point_data(p):
    if p is None: return None
    return {str(k): str(v)[:40] for k, v in list(p.used.items())[:200]}
