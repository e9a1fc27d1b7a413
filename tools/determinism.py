#!/usr/bin/env python3
"""Runs the same seeds several times with other worker counts, interpreter hash
seeds and environments and compares the history of every run.

  determinism.py [RUNS [CHECK...]]
"""
import os, sys, tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check  # noqa: E402

WAYS = [(8, '0'), (1, '1'), (3, '4242'), (5, '31337')]


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    out = check.build()
    total = bad = 0
    for c in sys.argv[2:] or sorted(check.CHECKS):
        eng = check.Engine(out, check.CHECKS[c]['engine'])
        n = m = 0
        for seed in (11, 12):
            ref = None
            for workers, hs in WAYS:
                k = runs if workers > 1 else max(1, runs // 4)
                with tempfile.TemporaryDirectory(dir=check.BUILD, prefix='det-') as d:
                    eng.batch(c, seed, 0, k, workers, 600, 'quick', d, {'PYTHONHASHSEED': hs, 'PADDING': 'x' * (17 * workers)})
                    hist = check.read_batch(d)[4]
                if ref is None:
                    ref = hist
                    continue
                for i, h in hist.items():
                    n += 1
                    m += ref.get(i) != h
        print('%s: %d repetitions compared, %d differ' % (c, n, m), flush=True)
        total += n
        bad += m
    print('all: %d repetitions compared, %d differ' % (total, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
