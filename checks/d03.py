import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_mod.c"])
    c.cov["rule"] = RULE
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(800, 8000)
    parallel(lambda k: run_harness(c, exe, ["mod", SEED, k * n, n], 300, hang_key="mod:hang", label="mod"), range(8))

RULE = "seeded modulator parameters (samples-per-symbol 1..255 incl. fractional, both deviation signs, BT, buffer size) and data, each modulated under three ways of cutting the data and compared sample by sample with a double-precision phase integral; the interpolator and the frequency modulator are also compared on their own; non-trivial: more than one byte and more than one sample per symbol"
run_check(main, "D03")
