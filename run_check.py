#!/usr/bin/env python3
"""run_check.py ID : decides property ID for /repo's current working tree (VERIF_TIER, VERIF_SEED from the environment)."""
import importlib.util, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/tools'); sys.path.insert(0, V + '/checks')
sys.dont_write_bytecode = True
import vlib
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from registry import CHECKS
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        CHECKS[prop](ctx)
        return ctx.finish()
    except vlib.CheckError as e:
        print('CHECK-ERROR', e); return 2
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); return 2
if __name__ == '__main__':
    sys.exit(main())
