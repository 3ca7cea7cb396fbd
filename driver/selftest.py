#!/usr/bin/env python3
"""Determinism: the same seeds in other processes, split over other numbers of
workers, must give the same event traces.  selftest.py [N] [props...]"""
import os, sys, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as K

def hashes(o, w):
    h = {}
    for k in range(w):
        for l in open(os.path.join(o, "hash-%d" % k)):
            i, x, c = l.split()
            h[int(i)] = (x, c)
    return h

n = int(sys.argv[1]) if len(sys.argv) > 1 else 400
bad = 0
for prop in sys.argv[2:] or sorted(K.PLAN):
    for prog, variant, q, _ in K.PLAN[prop]["quick"]:
        exe = K.B.build(prog, variant)
        m = min(n, q)
        ref, tot, mis = None, 0, 0
        for seed in (1, 99991):
            ref = None
            for w in (8, 3, 13):
                o, _, b = K.run_batch(exe, "self-%s-%d" % (variant, w), prop, seed, m, 3600, True, w)
                if b:
                    print("workers failed", b)
                    bad += 1
                h = hashes(o, w)
                shutil.rmtree(o)
                if ref is None:
                    ref = h
                    continue
                d = [i for i in ref if h.get(i) != ref[i]]
                tot += len(ref)
                mis += len(d)
                if d:
                    print(prop, variant, "seed", seed, "differ:", d[:10])
        bad += mis
        print("%s %s-%s: %d traces compared, %d differ" % (prop, prog, variant, tot, mis), flush=True)
sys.exit(1 if bad else 0)
