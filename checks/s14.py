import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *
from world import *

SLOW = ("o_timeout", "o_up_silent", "o_rx_not_reading", "o_tx_used")


class Churn(World):
    """sessions made to meet each other"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.trng = threading.local()

    def shared(self, k, how, pause, **kw):
        rng = self.r()
        if self.kind != "sdr":
            return self.o_rx(how)
        cl = self.srv.client(timeout=15, rcvbuf=rng.choice([None, 4096]))
        r = cl.open(T_RX, rx_body(**self.rxkw(center=k * 1000000, dest=rng.randrange(3), dump=rng.random() < 0.5, **kw)))
        end = time.time() + pause
        cl.s.settimeout(0.05)
        while time.time() < end:
            try:
                if not cl.s.recv(1 << 15):
                    break
            except socket.timeout:
                pass
        cl.s.settimeout(10)
        self.leave(cl, how)

    def r(self):
        if not hasattr(self.trng, "r"):
            with self.lock:
                self.n += 1
                self.trng.r = random.Random(self.seed * 1000 + self.n)
        return self.trng.r

    def o_flooded(self): self.shared(511, self.r().choice(["shutdown", "fin", "rst"]), self.r().choice([0, 0.01, 0.05, 0.2]))
    def o_flooded_doppler(self): self.shared(511, self.r().choice(["shutdown", "fin", "rst"]), 0.05, doppler=DOPPLER)
    def o_ended(self): self.shared(510, self.r().choice(["shutdown", "fin", "rst"]), self.r().choice([0, 0.04, 0.05, 0.06, 0.2]))
    def o_ended_wait(self): self.shared(510, "fin", 2)
    def o_same(self): self.shared(430, self.r().choice(["shutdown", "fin", "rst", "half"]), self.r().choice([0, 0.01, 0.05]))
    def o_rx_bad_doppler(self):
        cl, r = self.open(T_RX, rx_body(**self.rxkw(doppler=BAD_TLE))); cl.close()
    def o_tx_any(self):
        """whoever has the transmitter"""
        rng = self.r()
        cl, r = self.open(T_TX, tx_body(**self.txkw(dump=rng.random() < 0.5, doppler=DOPPLER if rng.random() < 0.5 else None, offset=rng.choice([0, 500]))))
        if r[0] == OK:
            for _ in range(rng.randrange(4)):
                cl.send(tx_data(rng.randbytes(rng.randrange(1, 2000))))
            self.leave(cl, rng.choice(["shutdown", "fin", "rst", "half"]))
        else:
            cl.close()


def job(c, j):
    seed, kind, san, delays, secs = j
    w = Churn(c, seed, kind, san=san, env={"TSAN_OPTIONS": SAN_ENV["TSAN_OPTIONS"] + ":detect_deadlocks=0:report_thread_leaks=0:io_sync=1"})
    w.kept = []
    srv = w.srv
    prob, us = delays
    if prob:
        srv.ctl.delays(prob, us, seed=seed)
    outcomes = sorted(n for n in dir(w) if n.startswith("o_") and n not in SLOW)
    weight = [6 if n in ("o_flooded", "o_ended", "o_ended_wait", "o_same", "o_tx_any", "o_flooded_doppler") else 3 if n in ("o_rx_shared", "o_rx_rst", "o_tx_pending", "o_file_big") else 1 for n in outcomes]
    deadline = time.time() + secs
    stopping = threading.Event()
    done = [0]
    def run(k):
        rng = random.Random(seed * 100 + k)
        while time.time() < deadline and not stopping.is_set() and srv.alive():
            n = rng.choices(outcomes, weight)[0]
            try:
                getattr(w, n)()
                done[0] += 1
            except (Gone, Quiet, OSError, ValueError):
                # what the sessions achieve is checked elsewhere
                pass
    ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(6)]
    [t.start() for t in ts]
    # stopped while it is busy
    time.sleep(max(0.2, secs - w.rng.random()))
    alive = srv.alive()
    rc, dt = srv.stop(w.rng.choice([signal.SIGTERM, signal.SIGINT]), timeout=60)
    stopping.set()
    [t.join(20) for t in ts]
    label = "%s:%s" % (kind, san)
    for key, det in srv.reports():
        c.violation(key, det, {"seed": seed, "conf": srv.conf})
    if srv.ctl.get("ebadf"):
        c.violation("closed-descriptor:%s" % srv.ctl.get("ebadf_name").split("(")[0], "%s was called with a descriptor that had been closed (%d times)" % (srv.ctl.get("ebadf_name"), srv.ctl.get("ebadf")), {"seed": seed})
    if not srv.reports():
        if not alive:
            c.violation("died:" + label, "the server ended with %s: %s" % (rc, srv.log_text()[-800:]), {"seed": seed})
        elif rc is None:
            c.violation("stop:" + label, "not ended 60 s after the signal", {"seed": seed})
    c.count(done[0], srv.ctl.get("threads"))
    c.add("sessions", done[0])
    c.add("threads_started", srv.ctl.get("threads"))
    c.add("delays_injected", srv.ctl.get("delays"))
    c.add("connections", srv.ctl.get("accepted"))
    if w.up:
        w.up.stop()
    if os.path.exists(w.big):
        os.unlink(w.big)


def main(c):
    c.cov["rule"] = ("random sessions of every outcome by 6 clients at once, sharing upstream connections that flood, end and fail, with randomly delayed lock, thread and socket operations, "
                     "stopped while busy; ThreadSanitizer and AddressSanitizer judge every access; distinct = server threads observed")
    build_server(c, "tsan"); build_server(c, "asan"); build_ref(c); build_iio(c)
    jobs = []
    n = 0
    D = [(0, 0), (100, 500), (300, 3000), (30, 20000)]
    for r in range(quick(1, 12)):
        for i, (kind, san) in enumerate([("sdr", "tsan"), ("sdr", "asan"), ("sdr", "tsan"), ("file", "tsan"), ("pluto", "tsan"), ("sdr", "tsan"), ("file", "asan"), ("sdr", "asan"),
                                         ("sdr", "tsan"), ("pluto", "asan"), ("file", "tsan"), ("sdr", "tsan")]):
            jobs.append((SEED * 1000 + n, kind, san, D[(n + n // 4) % 4], quick(5, 25)))
            n += 1
    parallel(lambda j: job(c, j), jobs, 6)
    c.sample("four clients share an upstream connection; it ends while one joins, one leaves with RST and the server is stopped")


run_check(main, "S14")
