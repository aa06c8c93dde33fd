from vlib import *
WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=pthread_cond_wait"]

def queue_check(c, mode, seq):
    asan = build(os.path.join(c.work, "ha"), "asan", ["h_queue.c"], ldflags=WRAP)
    tsan = build(os.path.join(c.work, "ht"), "tsan", ["h_queue.c"], ldflags=WRAP)
    c.cov["rule"] = ("concurrent histories of the real queue (%s) under random depth, buffer size, thread speeds, lock-call perturbation and injected spurious "
                     "wake-ups, under ASan/UBSan and ThreadSanitizer; each recorded history is checked for linearizability against a sequential model and every "
                     "buffer's length and content against its unique stamp (twice while it is held); deep queues (to 700), large buffers (to 140000 samples) and long histories (150000 operations) against a model step by step; streams of 70000 buffers between two threads; distinct = different orders of invocations and responses" % mode)
    n = quick(1500, 30000)
    jobs = [(asan, mode, n), (tsan, mode, n)] * 4
    if seq:
        jobs.append((asan, {"lossless": "seq1", "realtime": "seq2", "shutdown": "seq"}[mode], quick(3000, 200000)))
    w = {"lossless": "1", "realtime": "2", "shutdown": ""}[mode]
    jobs += [(asan, "big" + w, quick(60, 3000)), (asan, "stream" + w, quick(3, 60)), (tsan, "stream" + w, quick(2, 30))]
    jobs = [(e, m, k, i) for i, (e, m, k) in enumerate(jobs)]
    parallel(lambda j: run_harness(c, j[0], [j[1], SEED * 64 + j[3], j[2]], quick(240, 3000), leaks=(j[0] is asan), hang_key="queue:hang", label="queue"), jobs)
