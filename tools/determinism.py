#!/usr/bin/env python3
"""Is one seed one execution?  Runs the same seeds of every property twice,
with 1 process and with 3, under different real temporary directories, process
ids and times of day, and compares the digests of all the runs.

    determinism.py [--seeds N] [PROPERTY...]
"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run_check  # noqa


def runs(prop, workers, plan):
    run_check.WORKERS = workers
    jython = run_check.Jython()
    try:
        outputs, problems = run_check.run_workers(jython, prop, 7, plan)
    finally:
        jython.close()
    total = run_check.merge(outputs)
    return (sorted(total['digests']), total['runs'], total['steps'],
            total['kinds'], problems)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('--seeds', type=int, default=12)
    parser.add_argument('properties', nargs='*')
    args = parser.parse_args()
    plan = {'seeds': args.seeds, 'variants': 4, 'seconds': 600}
    different = 0
    for prop in args.properties or sorted(run_check.PLANS['properties']):
        first, second = runs(prop, 1, plan), runs(prop, 3, plan)
        same = first == second
        different += not same
        print('%s %s: %d runs, %d steps' % (
            prop, 'same' if same else 'DIFFERENT', first[1], first[2]))
        if not same:
            print('  %d digests only in the first, %d only in the second; %s'
                  % (len(set(first[0]) - set(second[0])),
                     len(set(second[0]) - set(first[0])),
                     first[4] + second[4]))
        sys.stdout.flush()
    return 1 if different else 0


if __name__ == '__main__':
    sys.exit(main())
