import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def main(c):
    c.cov["rule"] = ("seeded recordings (empty, partial samples, any bit pattern) and writes, buffer sizes, rates and offsets: every sample compared with the file resp. a double-precision carrier; "
                     "the reader observed waiting after the last sample and ending after stop; stops at random moments; non-trivial: at least one sample")
    exe = {k: build(os.path.join(c.work, "h-" + k), k, ["h_file.c"], ldflags=["-Wl,--wrap=pthread_cond_wait"]) for k in ("asan", "tsan")}
    d = os.path.join(c.work, "files")
    os.mkdir(d)
    jobs = [("asan", k) for k in range(7)] + [("tsan", 7)]

    def run(j):
        kind, k = j
        w = os.path.join(d, str(k))
        os.mkdir(w)
        n = quick(150, 4000)
        # more workers than cores: these mostly wait
        run_harness(c, exe[kind], [SEED, k * 100000, n, w], quick(120, 1200), leaks=kind == "asan", hang_key="file:hang", label="file-" + kind)
    parallel(run, jobs + [("asan", k) for k in range(8, 24)], 24)


run_check(main, "F01")
