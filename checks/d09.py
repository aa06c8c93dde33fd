import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    c.cov["rule"] = RULE
    c.assumptions = ["deep-space oracle: the model of the pinned commit, which reproduces the published test case", "eighth decimal of the mean motion isn't read by the code (a few metres per day)"]
    exe = build(os.path.join(c.work, "h"), "asan", ["h_sgp.c", "frozen_sgp.c"])
    tex = build(os.path.join(c.work, "ht"), "tsan", ["h_sgp.c", "frozen_sgp.c"])
    jobs = []
    for k in range(4):
        for mode, n in (("near", quick(50000, 500000)), ("deep", quick(30000, 200000)), ("mix", quick(4000, 30000)), ("tle", quick(10000, 100000)), ("fuzz", quick(4000, 200000))):
            jobs.append((exe, mode, k * n, n))
        n = quick(10, 200)
        jobs.append((tex, "threads", k * n, n))
    parallel(lambda j: run_harness(c, j[0], [j[1], SEED, j[2], j[3]], quick(200, 1500), hang_key="sgp:hang:" + j[1], label=j[1]), jobs)

RULE = "seeded element sets (low orbits 165-5000 km, eccentricity 1e-6..0.3; synchronous, 12-hour, navigation, transfer and other deep-space orbits), times up to 10 days before and after the epoch, random stations; near-earth compared with an independent implementation, deep-space with the pinned model, range and range rate with independent geometry; interleaved satellites compared bit for bit with predictions alone; element sets with one defect each must be refused, valid ones accepted with the exact values; random and mutated lines under AddressSanitizer; threads under ThreadSanitizer. Non-trivial: distinct element sets"
run_check(main, "D09")
