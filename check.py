#!/usr/bin/env python3
"""Run the check of one property:  check.py C01 [--replay FILE]"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import core, registry, run  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = core.Ctx(prop, tier, seed)
    try:
        if '--replay' in sys.argv:
            registry.replay(ctx, json.load(open(sys.argv[sys.argv.index('--replay') + 1])))
            ctx.work.close()
            return 1 if ctx.violations else 0
        registry.CHECKS[prop](ctx)
        return ctx.finish()
    except run.CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.work.close()


if __name__ == '__main__':
    sys.exit(main())
