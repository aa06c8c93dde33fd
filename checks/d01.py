import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_fir.c"])
    c.cov["rule"] = ("seeded filter configurations (real/complex, decimation 1..255, 1..150 taps, buffer 1..1000, total 0..1200 "
                     "samples, 4 memory alignments), each run under 4 ways of cutting the input; non-trivial: more than one tap and output")
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(8000, 60000)
    parallel(lambda k: run_harness(c, exe, ["fir", SEED, k * n, n], 300, hang_key="fir:hang", label="fir"), range(8))

run_check(main, "D01")
