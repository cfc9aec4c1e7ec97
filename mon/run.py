import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--replay')
    p.add_argument('--case', action='append')
    p.add_argument('--scale', type=float, default=1.)
    p.add_argument('--nproc', type=int)
    a = p.parse_args()
    from mon import core
    sys.path.insert(0, core.REPO)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    try:
        return core.run_check(a.prop.upper(), a.tier, a.seed, a.replay,
                              only=a.case, scale=a.scale, nproc=a.nproc)
    except core.Inconclusive as ex:
        print('INCONCLUSIVE property=%s %s' % (a.prop.upper(), ex))
        return 2


if __name__ == '__main__':
    sys.exit(main())
