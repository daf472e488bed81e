"""names of the functions of the code base when the contracts were written; a function that is not in the list (a helper extracted
later) is never replaced by a recorded call but executed as part of its caller"""
import sys, glob, os; sys.path.insert(0, '/verif')
from vf import build
srcs = sorted(glob.glob('/repo/src/*.c') + glob.glob('/repo/misc/*.c') + glob.glob('/repo/interfaces/*.c'))
out = set()
for s in srcs:
    try: M = build.load([s])[0]
    except Exception as e: print('skip', s, str(e)[:100]); continue
    out |= set(M.funcs)
open('/verif/vf/known_functions.txt', 'w').write('\n'.join(sorted(out)) + '\n'); print(len(out))
