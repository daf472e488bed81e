#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY --tier quick|thorough : decide one property on /repo's current tree."""
import sys, os, importlib, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512*1024*1024)
def main():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.RLIM_INFINITY))
    pid = sys.argv[1]; tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier')+1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'): tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vf import prop
    ctx = prop.Ctx(pid, tier, seed, 600 if tier == 'quick' else 800)
    mod = importlib.import_module('props.' + pid.lower())
    try: mod.run(ctx)
    except Exception as e:
        if os.environ.get('VF_TRACE'): traceback.print_exc()
        ctx.undecided('check', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:]))
    return ctx.finish(getattr(mod, 'LEVEL', 'proof'), getattr(mod, 'FLOOR', 1))
rc = [0]
def wrap():
    try: rc[0] = main()
    except SystemExit as e: rc[0] = e.code
    except BaseException:
        traceback.print_exc(); rc[0] = 2
t = threading.Thread(target=wrap); t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0]) if False else sys.exit(rc[0])
