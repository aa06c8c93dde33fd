import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    exe = build(os.path.join(c.work, "h"), "asan", ["h_total.c"])
    c.cov["rule"] = ("seeded parameter sets (sane, boundary and extreme values) for each of 11 blocks, fed with buffers of all allowed lengths and some beyond, holding ordinary, "
                     "non-finite, huge and denormal samples in exactly sized heap blocks; distinct = parameter sets the block accepted and processed samples with")
    c.assumptions = ["vector kernels replaced by instrumented C kernels of the same definition", "allocations beyond 300 MB fail (an out-of-memory refusal is accepted)"]
    n = quick(4400, 110000)
    env = {"ASAN_OPTIONS": (SAN_ENV["ASAN_OPTIONS"] % 0).replace("max_allocation_size_mb=8000", "max_allocation_size_mb=300")}
    parallel(lambda k: run_harness(c, exe, [SEED, k * n, n], quick(200, 3000), env=env, hang_key="total:hang", label="total"), range(8))

run_check(main, "D11")
