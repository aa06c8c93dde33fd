import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_mod.c"])
    c.cov["rule"] = RULE
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(20000, 100000)
    parallel(lambda k: run_harness(c, exe, ["qd", SEED, k * n, n], 300, hang_key="qd:hang", label="qd"), range(8))

RULE = "seeded sample sequences (random, slow rotation, exact multiples of 45 degrees, amplitudes 1e-8..1e8) under two ways of cutting, each output compared with atan2 in double precision, plus sweeps of the arctangent over quadrants, axes, table boundaries and magnitudes 1e-15..1e15; every case is non-trivial"
run_check(main, "D04")
