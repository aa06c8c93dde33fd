import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def main(c):
    c.cov["rule"] = RULE
    c.assumptions = ["line-of-sight velocity: pinned orbit model (compared with an independent one by D09) and independent geometry", "frequency is quantised to whole Hz; clock of the correction may deviate by 20 ppm"]
    exe = build(os.path.join(c.work, "h"), "asan", ["h_doppler.c", "frozen_sgp.c"])
    jobs = []
    for k in range(7):
        n = quick(90, 1200)
        jobs.append((0, k * n, n))
        n = quick(8, 80)
        jobs.append((1, k * n, n))
    jobs.insert(0, (2, 0, quick(4, 40)))
    for k in range(quick(3, 16)):
        jobs.insert(0, (3, k, 1))
    parallel(lambda j: run_harness(c, exe, [j[0], SEED, j[1], j[2]], quick(200, 2400), hang_key="doppler:hang", label="doppler"), jobs)

RULE = "seeded satellites, stations, start times up to 4 days from the epoch, carrier 30 MHz..8.2 GHz, sampling rates 500..250000, buffer cuts from one sample to more than two seconds, streams of 2 s to 20 min and of 30 hours, real time and fixed start; the frequency applied to every sample is measured and must lie within the true shift over one buffer before/after (1 Hz quantisation). Non-trivial: distinct scenarios"
run_check(main, "D08")
