"""entry point: python -m sa.run <property> [--tier quick|thorough]"""
import os
import sys
import traceback

from .report import Broken, Report


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from .registry import CHECKS
    rep = Report(pid, tier, '', seed)
    try:
        CHECKS[pid](rep)
    except Broken as e:
        print('analysis broken: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rep.finish()


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main())
