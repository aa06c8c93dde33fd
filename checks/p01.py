import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def main(c):
    c.cov["rule"] = "seeded sessions of the device: every value in every pushed buffer and every received value compared with the documented conversion, with device errors and oversized refills; non-trivial: every session transfers samples"
    c.assumptions = ["the library and the device behave like the stand-in (rates below the limit need the filter, buffers move with every transfer, one context per device)"]
    exe = build(os.path.join(c.work, "h"), "asan", ["h_pluto.c"], ldflags=["-Wl,--wrap=malloc"])
    n = quick(4000, 60000)
    parallel(lambda k: run_harness(c, exe, ["samples", SEED, k * 100000, n], quick(200, 1500), leaks=True, hang_key="pluto:hang", label="samples"), range(8))


run_check(main, "P01")
