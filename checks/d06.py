import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_mod.c"])
    c.cov["rule"] = RULE
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(2500, 30000)
    parallel(lambda k: run_harness(c, exe, ["dc", SEED, k * n, n], 300, hang_key="dc:hang", label="dc"), range(8))

RULE = "seeded blocker lengths 2..402 and inputs (constant, noise, tone with offset, impulse; up to 60000 samples) fed at once and in random cuts, compared sample by sample with a double-precision cascade; every case is non-trivial"
run_check(main, "D06")
