#!/usr/bin/env python3
"""plant.py ID PROP SPEC.py : build /verif/seeded/ID from a spec (edits, demo, needs, breaks), confirming in a scratch copy that the patched
tree builds, passes the stable tests, and that the demonstration passes on the original and fails on the patched tree; then run the check.
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=C source text | sh=shell text, needs, breaks)]"""
import sys, os, json, subprocess, shutil
W = '/tmp/plant'; R = W + '/repo'
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the property holds on the built tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
B=$PWD/_build/tree
gcc -w -g -O1 -fopenmp -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC -I$B/src -I$B/misc -I$B/interfaces -o $T/demo $D/demo.c $B/src/libxrtm.a $B/misc/libxrtm_misc.a -lopenblas -llapack -lgfortran -lm || exit 2
timeout 250 $T/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep():
    if not os.path.exists(R):
        os.makedirs(W); sh('cp -a /repo %s' % R)
        for f in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/opt/vp/build.sh', W + '/build.sh').replace('R=/repo', 'R=' + R).replace('/repo/_build', R + '/_build'); open(W + '/' + f, 'w').write(s)
    sh('git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD' % (R, R))
    r = sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (R, R))
def build(): 
    r = sh('bash %s/build.sh' % W); return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]
def tests():
    sh('bash %s/test.sh %s/out.json' % (W, W)); d = json.load(open(W + '/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in base if t not in d['passed']]
def main(specs, only):
    prep(); ok, log = build(); assert ok, log
    good = []
    for spec in specs:
        ns = {'spec': spec}; exec(open(spec).read(), ns)
        for s in ns['SEEDS']:
            if only and s['id'] not in only: continue
            d = H + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
            if 'sh' in s: open(d + '/demo.sh', 'w').write(s['sh'])
            else: open(d + '/demo.sh', 'w').write(SH)
            if 'demo' in s: open(d + '/demo.c', 'w').write(s['demo'])
            for k, v in s.get('files', {}).items(): open(d + '/' + k, 'w').write(v)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            r = sh('cd %s && bash %s/demo.sh' % (R, d))
            if r.returncode: print(s['id'], 'DEMO FAILS ON CLEAN', r.returncode, r.stdout[-500:], r.stderr[-800:]); shutil.rmtree(d); continue
            bad = False
            for f, o, n in s['edits']:
                t = open(R + '/' + f).read(); c = t.count(o)
                if c != 1: print(s['id'], 'EDIT matches', c, 'times:', o[:60]); bad = True; break
                open(R + '/' + f, 'w').write(t.replace(o, n))
            if bad: sh('git -C %s checkout -q -- .' % R); shutil.rmtree(d); continue
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
            ok, log = build()
            st = 'ok'
            if not ok: st = 'BUILD FAILS ' + log
            else:
                f = tests()
                if f: st = 'TESTS FAIL %d %s' % (len(f), f[:2])
                else:
                    r = sh('cd %s && bash %s/demo.sh' % (R, d))
                    if r.returncode == 0: st = 'DEMO PASSES ON PATCHED'
            chk = ''
            if st == 'ok':
                r = sh('cd %s && VF_REPO=%s timeout 900 python3-vt check.py %s' % (H, R, s['prop'])) if not os.environ.get('NOCHECK') else None
                if r: chk = 'check exit %d %s' % (r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'FAILED' in l][:3]); 
                if r and r.returncode not in (0, 1): chk += r.stderr[-600:]
            print(s['id'], st, chk, flush=True)
            if st != 'ok': shutil.rmtree(d)
            sh('git -C %s checkout -q -- .' % R); build()
if __name__ == '__main__': main([a for a in sys.argv[1:] if a.endswith('.py')], [a for a in sys.argv[1:] if not a.endswith('.py')])
