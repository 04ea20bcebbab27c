import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from report import Ctx, finish
import registry, interp

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mir = None
    if '--mir' in sys.argv: mir = sys.argv[sys.argv.index('--mir') + 1]
    ids = list(registry.CHECKS) if pid == 'all' else pid.split(',')
    prog = common.load(mir)
    rc = 0
    for i in ids:
        fn, level = registry.CHECKS[i]
        ctx = Ctx(i, tier)
        interp.LIMITS.update(deadline=time.time() + (480 if tier == 'quick' else 780))
        try:
            fn(prog, ctx)
        except Exception as e:
            if os.environ.get('DEBUG'): raise
            ctx.undecided('check', 'analysis gave up: %r' % (e,))
            traceback.print_exc(file=sys.stderr)
        rc = max(rc, finish(ctx, level, seed))
    return rc
if __name__ == '__main__':
    try:
        sys.exit(main())
    except common.ToolError as e:
        print(str(e)); sys.exit(2)
