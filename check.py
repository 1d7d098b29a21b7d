#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR] [-v]

Decides one property by static analysis of the current source in /repo.
Exit 0: holds on everything analysed; 1: VIOLATION; 2: no verdict."""

import argparse
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    warnings.simplefilter('ignore', SyntaxWarning)     # (string contents of the analysed documents)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from sa import props, report
    if a.property not in props.REGISTRY:
        print(f'unknown property {a.property}; known: {" ".join(sorted(props.REGISTRY))}')
        return 2
    try:
        result = props.REGISTRY[a.property](a.tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print(f'{a.property}: the analysis found no verdict: {type(e).__name__}: {e}')
        return 2
    return report.conclude(a.property, a.tier, result, t0, a.v)


if __name__ == '__main__':
    sys.exit(main())
