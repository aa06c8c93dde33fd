import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_modem.c"])
    c.cov["rule"] = ("seeded data, baud rate, samples per symbol, decimation, deviation and its sign, transition width, amplitude, noise, carrier offset; "
                     "modulated by gfsk_mod and demodulated by fsk_demod under two cuttings; 800 bits after the start-up transient must be recovered; "
                     "non-trivial: every case (random data)")
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition"]
    n = quick(120, 1500)
    parallel(lambda k: run_harness(c, exe, [SEED, k * n, n], 400, hang_key="modem:hang", label="modem"), range(8))

run_check(main, "D10")
