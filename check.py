#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]   decide one property
   check.py --replay FILE                            re-run one saved case, without Hypothesis
   check.py --all                                    every property, one after another
   check.py --selftest                               are the tools the checks need there?"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from occu_pbt import core, env  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.replay:
        os.environ.update(env.THREAD_ENV)
        return core.replay(os.path.abspath(a.replay))
    if a.selftest:
        import shutil
        scratch = env.make_scratch('selftest')
        try:
            os.environ.update(env.THREAD_ENV)
            env.bootstrap(scratch)
            import hypothesis
            print('hypothesis', hypothesis.__version__)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if a.all:
        worst = 0
        for pid in core.IDS:
            worst = max(worst, core.main_check(pid, a.tier, a.seed))
        return worst
    if a.id not in core.IDS:
        ap.error('unknown property')
    return core.main_check(a.id, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())
