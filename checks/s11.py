import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

RXP = dict(fs=48000, baud=9600, dec=1, fsk=dict(dev=2400, tw=2000, dc=True))
TXP = dict(fs=48000, baud=9600, fsk=dict(dev=3000))
RT = 2
BOUND = 4 * RT + 12


class World:
    """a server with sessions in chosen states"""
    def __init__(self, c, seed, rx, tx, delays):
        self.c, self.seed, self.rng = c, seed, random.Random(seed)
        self.rng2 = random.Random(seed + 7)
        pluto = "plutosdr" in (rx, tx)
        self.srv = Server(c, iio=pluto, rx_sdr_type=rx, tx_sdr_type=tx, buffer_size=2048, read_timeout_seconds=RT, queue_size=64)
        srv = self.srv
        if delays:
            srv.ctl.delays(80, 1000, seed=seed)
        if pluto:
            with open(srv.iio + "/rx", "wb") as f:
                f.write(self.rng.randbytes(8000))
        self.up = None
        self.clients, self.notes, self.threads, self.checks = [], [], [], []
        self.stopping = threading.Event()
        self.data = None
        self.silent_setup = threading.Event()
        self.flood = set()
        self.stubborn = set()
        self.established = []
        if rx == "sdr-server":
            self.up = Upstream(srv.conf["rx_sdr_server_address"], srv.conf["rx_sdr_server_port"], self.script, sndbuf=65536)
        self.sig = ref_signal(c, seed, 6000, 5, 48000, 2400, 0.1)
        self.data = readf(self.sig)

    def script(self, cn):
        r = cn.read_request()
        if r is None:
            return
        if r[2] in self.silent_set:
            # never answers
            self.silent_setup.set()
            cn.watch()
            return
        self.up.close_on_shutdown = True
        cn.respond()
        self.established.append(cn)
        if r[2] in self.stubborn:
            # takes notice of nothing, keeps the connection open and goes on sending
            cn.flooding = True
            def run():
                try:
                    while True:
                        cn.s.sendall(self.data[:16384])
                except OSError:
                    pass
            threading.Thread(target=run, daemon=True).start()
            self.up.register(cn)
            return
        cn.watch()
        self.up.register(cn)
        if r[2] in self.flood:
            try:
                while not cn.done.is_set():
                    cn.s.sendall(self.data)
            except OSError:
                pass
    silent_set = frozenset([99000000])

    def viol(self, key, det):
        self.c.violation(key, "%s; state: %s" % (det, self.notes), {"seed": self.seed, "notes": self.notes, "conf": self.srv.conf})

    # ---- states
    def idle_opener(self):
        self.clients.append(self.srv.client())

    def half_opener(self):
        cl = self.srv.client()
        m = msg(T_RX, rx_body(**RXP))
        cl.send(m[:self.rng.choice([1, 3, 6, 7, len(m) - 1])])
        self.clients.append(cl)

    def drip_opener(self):
        cl = self.srv.client()
        m = msg(T_TX, tx_body(**TXP)) + bytes(100)
        def run():
            try:
                for x in m:
                    cl.send(bytes([x]))
                    if self.stopping.wait(0.3) and self.srv.p.poll() is not None:
                        return
            except OSError:
                pass
        self.bg(run)
        self.clients.append(cl)

    def bg(self, fn):
        t = threading.Thread(target=fn, daemon=True)
        t.start()
        self.threads.append(t)

    def connector_storm(self):
        srv, rng = self.srv, random.Random(self.seed + 5)
        def run():
            while srv.p.poll() is None:
                try:
                    cl = srv.client(timeout=3)
                    cl.send(rng.choice([msg(T_PING), msg(T_RX, rx_body(**RXP)), msg(T_TX, tx_body(**TXP)), b"\0\0"]))
                    if rng.random() < 0.5:
                        cl.response()
                    cl.close(abort=rng.random() < 0.5)
                except (Gone, Quiet, ValueError, OSError):
                    pass
        for _ in range(2):
            self.bg(run)

    def open_rx(self, retry=False, **kw):
        cl = self.srv.client(timeout=30, rcvbuf=kw.pop("rcvbuf", None))
        r = cl.open(T_RX, rx_body(**dict(RXP, **kw)))
        if r[0] != OK:
            raise CheckError("S11: receive session refused: %s" % (r,))
        cl.req = dict(RXP, **kw)
        self.clients.append(cl)
        return cl

    def open_tx(self, **kw):
        self.path = self.srv.dir + "/tx"
        req = dict(TXP, **kw)
        if self.srv.conf["tx_sdr_type"] == "file":
            req["file"] = dict(filename=self.path)
        else:
            req.update(fs=1000000, baud=100000)
        cl = self.srv.client(timeout=30)
        r = cl.open(T_TX, tx_body(**req))
        if r[0] != OK:
            raise CheckError("S11: transmit session refused: %s" % (r,))
        self.clients.append(cl)
        self.txreq, self.acked, self.asked = req, b"", b""
        self.checks.append(self.check_tx)
        return cl

    def check_tx(self):
        if self.srv.conf["tx_sdr_type"] != "file":
            return
        full = ref_mod(self.c, self.asked, self.txreq) if self.asked else b""
        got = readf(self.path)
        least = len(self.acked) * 8 * 5 * 8
        if got != full[:len(got)]:
            self.viol("tx-file", "transmitted samples: " + diff_text(got, full, 8))
        elif len(got) < least:
            self.viol("tx-file", "%d samples in the file, but %d have been acknowledged" % (len(got) // 8, least // 8))
        self.c.add("tx_files_checked")

    def tx_work(self, cl, n):
        for _ in range(n):
            b = self.rng.randbytes(self.rng.randrange(1, 200))
            self.asked += b
            cl.send(tx_data(b))
            r = cl.response()
            if r != (OK, 0):
                self.viol("tx-response", "message answered with %s" % (r,))
                return
            self.acked += b

    def tx_idle(self):
        cl = self.open_tx()
        self.tx_work(cl, self.rng.randrange(0, 4))

    def tx_half(self):
        cl = self.open_tx()
        self.tx_work(cl, 1)
        m = tx_data(self.rng.randbytes(500))
        cl.send(m[:self.rng.choice([1, 5, 6, 7, 300])])

    def tx_busy(self):
        cl = self.open_tx()
        def run():
            rng = random.Random(self.seed + 1)
            while True:
                b = rng.randbytes(rng.randrange(1, 400))
                self.asked += b
                try:
                    cl.send(tx_data(b))
                    if cl.response() != (OK, 0):
                        return
                except (Gone, Quiet, ValueError, OSError):
                    return
                self.acked += b
        self.bg(run)

    def tx_not_reading(self):
        # the responses fill the connection
        self.srv.ctl.set("sndbuf", 2048)
        req = dict(TXP, file=dict(filename=self.srv.dir + "/tx")) if self.srv.conf["tx_sdr_type"] == "file" else dict(TXP, fs=1000000, baud=100000)
        cl = self.srv.client(timeout=30, rcvbuf=2048)
        r = cl.open(T_TX, tx_body(**req))
        self.srv.ctl.set("sndbuf", 0)
        if r[0] != OK:
            raise CheckError("S11: transmit session refused: %s" % (r,))
        self.clients.append(cl)
        self.path, self.txreq, self.acked, self.asked = self.srv.dir + "/tx", req, b"", b""
        m = tx_data(b"x")
        cl.s.settimeout(2)
        try:
            for _ in range(4000):
                self.asked += b"x" * 50
                cl.send(m * 50)
        except OSError:
            pass
        self.checks.append(self.check_tx)

    # receivers
    def rx_stream(self, kind):
        """kind: live, idle (everything processed), stalled upstream, flood, stubborn; destinations file and socket"""
        srv = self.srv
        dest = self.rng2.choice([0, 1, 2])
        kw = dict(dest=dest, dump=True)
        rx = srv.conf["rx_sdr_type"]
        if rx == "plutosdr":
            kw.update(fs=1000000, baud=100000, fsk=dict(dev=50000, tw=100000, dc=True))
        elif rx == "file":
            if kind in ("flood", "stubborn"):
                # practically endless
                big = srv.dir + "/big.cf32"
                with open(big, "wb") as f:
                    f.write(self.data)
                    f.truncate(1 << 33)
                kw["file"] = dict(filename=big)
            else:
                kw["file"] = dict(filename=self.sig)
        else:
            center = 430000000 + 1000 * self.rng2.randrange(1, 4) if kind in ("live", "idle") else 440000000 + 1000 * len(self.clients)
            kw["center"] = center
            # the centre frequency the upstream sees
            if kind == "flood":
                self.flood.add(center)
            if kind == "stubborn":
                self.stubborn.add(center)
        cl = self.open_rx(**kw)
        rd = Reader(cl)
        exact = False
        if rx == "sdr-server" and kind in ("live", "idle"):
            cn = wait_for(lambda: [x for x in self.up.conns if x.request[2] == center], 5)[0] if not any(getattr(x, "center", None) == center for x in self.clients) else None
            cl.center = center
            if cn is None:
                kind = "shared"
            elif kind == "idle":
                cn.send(self.data)
                exact = True
            else:
                cn.send(self.data[:len(self.data) // 2])
                def run():
                    p = len(self.data) // 2
                    try:
                        while p < len(self.data):
                            cn.send(self.data[p:p + 1000])
                            p += 1000
                            time.sleep(0.005)
                    except OSError:
                        pass
                self.bg(run)
        if rx == "file" and kind not in ("flood", "stubborn"):
            exact = kind == "idle"
        if exact:
            want = ref_demod(self.c, self.sig, cl.req)
            if dest != 0:
                # the last buffer isn't full: it is taken when the read timeout has passed
                if not rd.wait_len(len(want), 30):
                    self.viol("not-processed", "the recording was not processed: %d of %d bytes" % (len(rd.data), len(want)))
            else:
                time.sleep(RT + 0.5 if rx != "file" else 0.3)
                # known only if nothing else is going on
                exact = srv.idle(3, 0.5)
        self.checks.append(lambda: self.check_rx(cl, rd, kind, exact))

    def check_rx(self, cl, rd, kind, exact):
        srv = self.srv
        rd.wait_end(10)
        d = srv.dump("sdr2demod", cl.id)
        f = srv.dump("demod2client", cl.id)
        rx = srv.conf["rx_sdr_type"]
        if d is None or (f is None) != (cl.req["dest"] == 1):
            return self.viol("rx-file", "%s: output files are missing" % kind)
        if exact and d != self.data:
            return self.viol("rx-file", "%s: everything had been received, but the dump is %s" % (kind, diff_text(d, self.data, 8)))
        if not rd.ended:
            self.viol("not-closed", "%s: the connection is still open" % kind)
        if len(d) > 6000000:
            return
        p = tmp(self.c, ".cf32")
        with open(p, "wb") as o:
            o.write(d)
        want = ref_demod(self.c, p, cl.req) if d else b""
        os.unlink(p)
        # the file has everything that was demodulated, of every buffer in the dump
        if f is not None and f != want:
            self.viol("rx-file", "%s: output file and demodulation of the dump: %s" % (kind, diff_text(f, want)))
        got = bytes(rd.data)
        if exact and cl.req["dest"] != 0 and got != want:
            self.viol("rx-socket", "%s: socket: %s" % (kind, diff_text(got, want)))
        elif got != want[:len(got)]:
            self.viol("rx-socket", "%s: socket: %s" % (kind, diff_text(got, want)))
        self.c.add("rx_files_checked")

    def rx_not_reading(self):
        kw = dict(dest=self.rng2.choice([1, 2]))
        rx = self.srv.conf["rx_sdr_type"]
        if rx == "file":
            big = self.srv.dir + "/big2.cf32"
            with open(big, "wb") as f:
                f.write(self.data)
                f.truncate(1 << 33)
            kw["file"] = dict(filename=big)
        elif rx == "plutosdr":
            kw.update(fs=1000000, baud=100000, fsk=dict(dev=50000, tw=100000, dc=True))
        else:
            kw["center"] = 450000000 + 1000 * len(self.clients)
            self.flood.add(kw["center"])
        self.srv.ctl.set("sndbuf", 2048)
        cl = self.open_rx(rcvbuf=2048, **kw)
        self.srv.ctl.set("sndbuf", 0)
        time.sleep(1)

    def neighbours(self):
        """several clients share one upstream connection; one of them may not read, another leave at the moment of the stop"""
        if not self.up:
            return
        rng = self.rng
        center = 470000000 + 1000 * len(self.clients)
        self.flood.add(center)
        order = ["reads"] * rng.randrange(1, 3) + rng.choice([["stuck"], ["stuck"], ["leaves"], ["stuck", "leaves"]])
        rng.shuffle(order)
        for k in order:
            dest = rng.choice([0, 1, 2]) if k == "reads" else rng.choice([1, 2])
            if k == "stuck":
                self.srv.ctl.set("sndbuf", 2048)
            cl = self.open_rx(center=center, dest=dest, dump=k == "reads", baud=rng.choice([2400, 4800, 9600]) if k != "reads" else RXP["baud"], rcvbuf=2048 if k == "stuck" else None)
            self.srv.ctl.set("sndbuf", 0)
            if k == "reads":
                rd = Reader(cl)
                self.checks.append(lambda cl=cl, rd=rd: self.check_rx(cl, rd, "neighbour", False))
            elif k == "leaves":
                threading.Thread(target=Reader, args=(cl,), daemon=True).start()
                def leave(cl=cl, wait=rng.choice([0, 0, 0.001, 0.02, 0.2])):
                    self.stopping.wait(30)
                    time.sleep(wait)
                    try:
                        cl.s.shutdown(2)
                    except OSError:
                        pass
                self.bg(leave)
        if "stuck" in order:
            time.sleep(1)

    def rx_setup_pending(self):
        """the acceptor waits for the upstream server"""
        if not self.up:
            return
        cl = self.srv.client()
        cl.send(msg(T_RX, rx_body(**dict(RXP, center=99000000))))
        self.clients.append(cl)
        self.silent_setup.wait(10)

    def left(self):
        """a session that has ended in one way or the other"""
        kw = {}
        if self.srv.conf["rx_sdr_type"] == "file":
            kw["file"] = dict(filename=self.sig)
        elif self.srv.conf["rx_sdr_type"] == "plutosdr":
            kw.update(fs=1000000, baud=100000, fsk=dict(dev=50000, tw=100000, dc=True))
        else:
            kw["center"] = 460000000
        cl = self.open_rx(**kw)
        cl.close(abort=self.rng.random() < 0.5)


RX_STATES = ["live", "idle", "stalled", "flood", "stubborn", "not_reading"]
TX_STATES = ["tx_idle", "tx_half", "tx_busy", "tx_not_reading"]
ACCEPT_STATES = ["idle_opener", "half_opener", "drip_opener", "connector_storm", "rx_setup_pending", None, None]


def job(c, j):
    seed, rx, states, how, delays = j
    w = World(c, seed, rx, "plutosdr" if rx == "plutosdr" else "file", delays)
    srv, rng = w.srv, w.rng
    try:
        for s in states:
            if s is None or not srv.alive():
                continue
            w.notes.append(s)
            if s in ("live", "idle", "stalled", "flood", "stubborn"):
                w.rx_stream(s)
            elif s == "not_reading":
                w.rx_not_reading()
            else:
                getattr(w, s)()
    except (Gone, Quiet, ValueError, OSError) as e:
        w.viol("set-up", repr(e))
        srv.kill()
        return
    time.sleep(rng.choice([0, 0, 0.01, 0.1, 0.3]))
    alive = srv.alive()
    sigs, gap = how
    t = time.time()
    w.stopping.set()
    for s in sigs:
        if srv.p.poll() is None:
            srv.p.send_signal(s)
        time.sleep(gap)
    try:
        rc = srv.p.wait(max(1, BOUND - (time.time() - t)))
    except subprocess.TimeoutExpired:
        rc = None
        # where is it?
        stacks = []
        try:
            for x in os.listdir("/proc/%d/task" % srv.p.pid):
                stacks.append(readf("/proc/%d/task/%s/wchan" % (srv.p.pid, x)).decode())
        except OSError:
            pass
        srv.kill()
    dt = time.time() - t
    c.cov["slowest_stop_ms"] = max(c.cov.get("slowest_stop_ms", 0), int(dt * 1000))
    c.count(1, 1)
    for s in states:
        if s:
            c.add("state_" + s)
    srv.log.close() if not srv.log.closed else None
    reps = srv.reports()
    for key, det in reps:
        c.violation(key, det, {"notes": w.notes, "seed": seed})
    names = [signal.Signals(s).name for s in sigs]
    if not alive and not reps:
        w.viol("died", "the server ended before it was stopped: %s: %s" % (rc, srv.log_text()[-500:]))
    elif rc is None:
        w.viol("not-ended", "not ended %d s after %s (threads in %s)" % (BOUND, names, stacks))
    elif rc != 0 and not reps:
        w.viol("exit-code", "ended with %s after %s: %s" % (rc, names, srv.log_text()[-500:]))
    elif not reps:
        for k in w.checks:
            k()
        if w.up:
            time.sleep(0.05)
            for cn in w.established:
                if getattr(cn, "flooding", False):
                    continue
                cn.done.wait(5)
                if cn.request[2] == 460000000:
                    continue
                if not cn.got_shutdown:
                    w.viol("upstream", "connection tuned to %s ended without the shutdown message (received %s)" % (cn.request[:3], cn.extra if cn.done.is_set() else "nothing"))
                c.add("upstream_shutdowns")
        if seed % 2 == 0:
            # its clients still hold their ends of the connections
            try:
                ok = srv.again()
                r = srv.ping() if ok else None
                rc2, _ = srv.stop(timeout=BOUND)
                if not ok or r != (OK, 0) or rc2 != 0:
                    w.viol("again", "started again with the same configuration: listening %s, ping answered with %s, ended with %s: %s" % (ok, r, rc2, srv.log_text()[-300:]))
            except (Gone, Quiet, ValueError, OSError) as e:
                w.viol("again", "started again with the same configuration: %r" % e)
            srv.kill()
            c.add("started_again")
    for cl in w.clients:
        cl.close()
    if w.up:
        w.up.stop()
    # nothing is kept
    for n in ("big.cf32", "big2.cf32"):
        if os.path.exists(srv.dir + "/" + n):
            os.unlink(srv.dir + "/" + n)


def states_for(rng, rx):
    out = []
    if rx == "plutosdr":
        out.append(rng.choice(["live", "not_reading", None]))
    else:
        n = rng.randrange(0, 4)
        # several receivers
        out += [rng.choice(RX_STATES) for _ in range(n)]
        if rx == "file" and out.count("not_reading") > 1:
            out = ["not_reading"] + [x for x in out if x != "not_reading"]
    if rng.random() < 0.3:
        out.insert(0, "left") if rx != "plutosdr" else None
    out.append(rng.choice(TX_STATES + [None]))
    # these keep the acceptor busy: last
    out.append(rng.choice(ACCEPT_STATES))
    return out


def main(c):
    c.cov["rule"] = "one stop of a server whose sessions are in a chosen combination of states; exit status and time, upstream shutdown message, output files compared with the reference"
    build_server(c); build_ref(c); build_iio(c)
    T, I, H = signal.SIGTERM, signal.SIGINT, signal.SIGHUP
    jobs = []
    rng = random.Random(SEED)
    k = 0
    def add(rx, states):
        nonlocal k
        how = rng.choice([([T], 0), ([T], 0), ([I], 0), ([H], 0), ([T, T], 0), ([T, I], 0), ([T, I, H, T], 0.005), ([I, T], 0.3)])
        jobs.append((SEED * 10000 + k, rx, states, how, k % 3 == 1))
        k += 1
    # every state alone, then mixes
    for s in RX_STATES:
        add("sdr-server", [s])
        if s != "stubborn":
            add("file", [s])
    for s in TX_STATES:
        add("sdr-server", [s])
    add("plutosdr", ["live", "tx_busy"]); add("plutosdr", ["not_reading", "tx_not_reading"]); add("plutosdr", ["tx_half", "live"])
    for s in ACCEPT_STATES[:5]:
        add("sdr-server", [s]); add("file", ["live", s])
    add("file", [None])
    for i in range(6):
        add("sdr-server", ["neighbours"])
    for i in range(quick(32, 400)):
        rx = rng.choice(["sdr-server", "sdr-server", "file", "plutosdr"])
        add(rx, states_for(rng, rx))
        if rx == "sdr-server" and i % 3 == 0:
            jobs[-1][2].insert(0, "neighbours")
    parallel(lambda j: job(c, j), jobs)
    c.sample("receivers: one streaming, one not reading its flood; transmitter not reading its responses; a client dripping its request; SIGTERM and SIGINT at once")


run_check(main, "S11")
