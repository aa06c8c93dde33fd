import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_clock.c"])
    c.cov["rule"] = ("seeded parameter sets and sample sequences; each sequence recovered when fed at once and under four cuttings (compared symbol by symbol), "
                     "and clean shaped signals with random timing phase, rate error and bursts of non-finite samples whose symbols must all be recovered in order; "
                     "non-trivial: at least four symbols produced")
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(1400, 12000)
    parallel(lambda k: run_harness(c, exe, [SEED, k * n, n], 400, hang_key="clock:hang", label="clock"), range(8))

run_check(main, "D05")
