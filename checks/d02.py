import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_fir.c"])
    c.cov["rule"] = ("seeded (gain, sampling rate, cut-off, transition width) triples, compared with the windowed-sinc design computed "
                     "in double precision, its symmetry, DC gain, pass/stop-band response; plus invalid triples; non-trivial: selectivity measured on both sides")
    n = quick(40000, 400000)
    parallel(lambda k: run_harness(c, exe, ["taps", SEED, k * n, n], 300, hang_key="taps:hang", label="taps"), range(8))

run_check(main, "D02")
