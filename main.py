"""Entry point of every check: see ./check."""
import argparse
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--case', type=int, help='print case number N')
    ap.add_argument('--selftest', action='store_true')
    if '--selftest' in sys.argv:                 # setup: everything can be imported and is registered
        from mon import registry
        print('%d checks registered' % len(registry.all_checks()))
        return 0
    a = ap.parse_args()
    from mon import core, registry
    import dynetworkx
    if not os.path.realpath(dynetworkx.__file__).startswith(os.path.realpath(core.REPO) + '/'):
        print('dynetworkx was imported from %s, not from %s' % (dynetworkx.__file__, core.REPO))
        return 3
    check = registry.get(a.property)
    if a.replay:
        return core.replay(check, a.replay)
    if a.case is not None:
        print(check.gen(core.case_rng(a.seed, check.pid, a.case), a.case, a.tier))
        return 0
    return core.run_check(check, a.tier, a.seed, scale=a.scale)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
