import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_mod.c"])
    c.cov["rule"] = RULE
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(6000, 60000)
    parallel(lambda k: run_harness(c, exe, ["sig", SEED, k * n, n], 300, hang_key="sig:hang", label="sig"), range(8))

RULE = "seeded sampling rates (4 Hz..5 MHz), frequencies in the whole allowed range, amplitudes, buffer sizes, mixed generate/multiply calls and frequency changes, compared sample by sample with a double-precision carrier; non-trivial: frequency other than zero"
run_check(main, "D07")
