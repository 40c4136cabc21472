#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough]: decides one property from /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(12000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from sa.frame import Ctx
    from sa.project import AnchorMissing
    import checks
    mod, fn = checks.REGISTRY[pid]
    ctx = Ctx(pid, tier)
    try:
        getattr(importlib.import_module('checks.' + mod), fn)(ctx)
    except AnchorMissing as e:
        from sa.frame import missing
        ctx.add(missing(str(e)))
    except SyntaxError as e:
        print('ERROR: source does not parse: %s' % e)
        return 2
    return ctx.finish('other')


if __name__ == '__main__':
    sys.exit(main())
