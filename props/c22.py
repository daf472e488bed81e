"""C22: list operations, comparison functions and sorting (CBMC, the code itself; loop-free functions for all inputs, the rest bounded)."""
import os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vf import build, solve
from vf.prop import HERE, limit_memory
FLOOR = 150
NAME = 'containers'
OPT = ['--drop-unused-functions', '--no-malloc-may-fail', '--pointer-check', '--slice-formula']
OPS = ['insert', 'insert_end', 'insert_front', 'add', 'add_end', 'add_front', 'remove', 'delete', 'ends', 'create']
PFX = ['uc', 'c', 'us', 's', 'ui', 'i', 'ul', 'l', 'ull', 'll', 'f', 'd']
#      harness file, real source, [(entry, unwinding, M)]
JOBS = [('list', 'misc/gstruct.c', [('h_' + x, 10, 2) for x in OPS] + [('b_count', 7, 4), ('b_empty', 7, 4), ('b_insert_sort', 7, 3), ('b_add_sort', 7, 3), ('b_sort', 6, 2), ('b_find', 5, 2)]),
        ('cmp', 'misc/gutil_cmp.c', [('h_' + x, 6, 4) for x in PFX] + [('b_' + x, 6, 4) for x in PFX]),
        ('sort', 'misc/gutil_sort.c', [('h_swap', 6, 4)] + [('b_insertion_' + x, 6, 4) for x in ('data', 'index', 'pointer')])]
def goto(h, src, m):
    out = os.path.join(build.scratch(), '%s%d.gb' % (h, m))
    r = subprocess.run(['goto-cc', '-DM=%d' % m, '-o', out] + build.cflags() + [os.path.join(HERE, 'cbmc', h + '.c'), os.path.join(build.REPO, src)], capture_output=True, text=True)
    return out if r.returncode == 0 and os.path.exists(out) else 'ERR ' + r.stderr[-300:]
def one(j):
    h, gb, entry, unw = j
    t = time.time()
    try: r = subprocess.run(['cbmc', gb, '--function', entry, '--unwind', str(unw)] + OPT, capture_output=True, text=True, timeout=300, preexec_fn=lambda: limit_memory(6))
    except subprocess.TimeoutExpired: return j, None, 'no answer within 300 s', time.time() - t
    return j, r.stdout, r.stderr[-200:], time.time() - t
def run(ctx):
    gbs = {}
    for h, src, es in JOBS:
        for m in {m for _, _, m in es}: gbs[h, m] = goto(h, src, m)
    js = []
    for h, src, es in JOBS:
        for e, u, m in es:
            g = gbs[h, m]
            if g.startswith('ERR'): ctx.undecided('%s %s' % (src, e), g[4:])
            else: js.append((h, g, e, u))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, js))
    for (h, g, e, u), out, err, t in res:
        name = '%s/%s' % (h, e); solve._stats['z3_time'] += t; solve._stats['z3'] += 1
        src = {x[0]: x[1] for x in JOBS}[h]
        if out is None or 'VERIFICATION' not in out: ctx.undecided(name, err or 'no verdict'); continue
        props = re.findall(r'^\[([^\]]+)\] line \d+ (.*): (SUCCESS|FAILURE|UNKNOWN)$', out, re.M)
        bad = [(i, d) for i, d, r in props if r == 'FAILURE']
        # a loop that runs further than the unwinding: the bound is too small for this text of the code, not a defect
        if any('unwind' in i or 'recursion' in i for i, d in bad): ctx.undecided(name, 'a loop runs beyond the unwinding bound %d' % u); continue
        real = [(i, d) for i, d in bad if not i.startswith('vf') and 'malloc' not in i]
        for i, d, r in props:
            f = i.split('.')[0]
            if r != 'SUCCESS' or 'unwind' in i or not ('.assertion.' in i or f.startswith(('gd', 'cmp_', 'swap', 'insertion'))) or f == 'malloc': continue  # harness bookkeeping
            (ctx.ok if e.startswith('h_') else ctx.bounded)('%s %s: %s' % (name, i, d), 'cbmc')
        if real:
            i, d = real[0]
            ctx.violation('%s: %s (%s)' % (name, d, i), 'cbmc refutes %d obligations of %s in %s: %s' % (len(real), e, src, '; '.join(d for _, d in real[:4])), dict(verifier='cbmc %s --function %s' % (h, e), failed=['%s: %s' % x for x in real[:20]]))
        elif bad: ctx.undecided(name, 'obligations of library models fail: %s' % bad[0][0])
    ctx.functions |= {'gdclist_' + x for x in ('create', 'insert', 'insert_end', 'insert_front', 'add', 'add_end', 'add_front', 'remove', 'delete', 'first', 'last', 'is_empty', 'count', 'empty', 'find_comp', 'insert_sort_comp', 'add_sort_comp', 'sort_comp')} | {'gdcelem_' + x for x in ('advance', 'retreat', 'value', 'pointer')}
    ctx.functions |= {a + p for p in PFX for a in ('cmp_', 'cmp_p_', 'cmp_n_', 'cmp_dec_', 'cmp_dec_p_', 'cmp_dec_n_')} | {'swap_index', 'swap_pointer', 'insertion_sort_data', 'insertion_sort_index', 'insertion_sort_pointer'}
    ctx.assume('loop-free list operations touch at most the first and last elements, the given element and their direct neighbours: the pool of nine nodes with arbitrary links elsewhere stands for a list of any length',
               'memory allocation succeeds', 'not-a-number values have no order and are excluded', 'whole-list traversals, array comparisons and sorting are bounded (rings of 2 to 4 elements, arrays of 4; native: every array of up to 6 keys, random longer ones)')
    ctx.run_native('quick_sort_*, insertion_sort_*, list histories against a reference', 'every key array of up to 6 elements, random arrays of up to 300, 4000 random list histories (native)')
