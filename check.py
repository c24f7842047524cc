#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the property's explorer against /repo's current working tree, runs it exhaustively, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself could not run."""
import argparse, importlib, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    import props
    spec = props.SPECS[a.id]
    t0 = time.time()
    try:
        res = spec['run'](a.id, a.tier, a.replay)
    except core.CheckError as e:
        print('CHECK-ERROR property=%s: %s' % (a.id, e))
        sys.exit(2)
    sys.exit(core.conclude(a.id, a.tier, spec, res, time.time() - t0, bool(a.replay)))


if __name__ == '__main__':
    main()
