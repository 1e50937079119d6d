#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source. Exit 0 or 1."""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'specs')]
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)
import build
from ctx import Ctx

CTX = [None]
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    ctx = Ctx(pid, tier if tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    CTX[0] = ctx
    mod = importlib.import_module(pid.lower())
    try: mod.check(ctx)
    except build.BuildError as x:
        if x.stage.startswith('dump'):
            ctx.bad('build', x.stage, 'the code or its public API as the harness uses it does not compile:\n' + x.log[-3000:])
        else:
            print(x.log); return 3
    except (Exception, MemoryError) as x:
        # a construct the analysis cannot follow is reported as undecided, never as an alarm
        traceback.print_exc()
        ctx.undecided(pid, 'analysis stopped: ' + repr(x))
    return ctx.finish()
rc = [3]
def run():
    try: rc[0] = main()
    except BaseException:
        traceback.print_exc(); rc[0] = 3
import resource
resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
LIMIT = 780
t = threading.Thread(target=run, daemon=True); t.start(); t.join(LIMIT)
if t.is_alive():
    # too slow to decide: report what was established so far
    c = CTX[0]
    if c is not None:
        c.undecided(c.prop, f'stopped after {LIMIT} s')
        rc[0] = c.finish()
sys.stdout.flush()
os._exit(rc[0])
