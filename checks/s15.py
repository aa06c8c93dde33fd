import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

RXP = dict(fs=48000, baud=9600, dec=1, fsk=dict(dev=2400, tw=2000, dc=True))
GOOD = struct.pack(">BBBI", 0, 2, 0, 0)
# ways to fail before the stream
SETUP = ["refuse", "refuse_details", "status_unknown", "version", "type", "garbage", "empty_close", "rst", "close_before_request", "rst_before_request", "partial1", "partial2", "partial6",
         "silent", "partial_silent", "http", "dead", "backlog", "fin_no_answer"]
SLOW = {"silent", "partial_silent", "backlog"}


class World:
    def __init__(self, c, seed, rt):
        self.c, self.seed, self.rng, self.rt = c, seed, random.Random(seed), rt
        self.srv = Server(c, leaks=True, rx_sdr_type="sdr-server", buffer_size=self.rng.choice([512, 1024, 4096]), read_timeout_seconds=rt, queue_size=64)
        self.sig = ref_signal(c, seed, 900, 5, 48000, 2400, 0.1)
        self.data = readf(self.sig)
        self.mode = {}           # tuning -> how its next connection fails
        self.up = None
        self.start_up()
        self.seen = 0

    def start_up(self):
        if self.up is None:
            self.up = Upstream(self.srv.conf["rx_sdr_server_address"], self.srv.conf["rx_sdr_server_port"], self.script)

    def script(self, cn):
        pre = self.mode.get("connect")
        if pre == "close_before_request":
            return cn.s.close()
        if pre == "rst_before_request":
            return cn.close(abort=True)
        if cn.read_request() is None:
            return
        m = self.mode.get(cn.request[2])
        if m is None:
            cn.respond()
            cn.watch()
            self.up.register(cn)
            return
        raw = {"refuse": b"\0\2\1\0\0\0\1", "refuse_details": b"\0\2\1\xff\xff\xff\xff", "status_unknown": b"\0\2\x07\0\0\0\0", "version": b"\1\2\0\0\0\0\0", "type": b"\0\1\0\0\0\0\0",
               "garbage": bytes(range(200, 240)), "empty_close": b"", "partial1": b"\0", "partial2": b"\0\2", "partial6": GOOD[:6], "partial_silent": GOOD[:5], "http": b"HTTP/1.1 400 Bad Request\r\n\r\n",
               "silent": b"", "fin_no_answer": b"", "rst": b""}[m]
        if raw:
            cn.s.sendall(raw)
        if m == "rst":
            cn.close(abort=True)
        elif m == "fin_no_answer":
            cn.s.shutdown(socket.SHUT_WR)
            cn.watch()
        elif m in ("silent", "partial_silent"):
            cn.watch()
        elif m in ("empty_close", "partial1", "partial2", "partial6"):
            cn.close()
        else:
            cn.watch()

    def req(self, k, dest=1, **kw):
        return dict(RXP, center=430000000 + 1000 * k, dest=dest, **kw)

    def viol(self, key, det):
        self.c.violation(key, det, {"seed": self.seed, "conf": self.srv.conf})

    # ---- one request that cannot succeed
    def fail(self, how, k=1):
        srv, c = self.srv, self.c
        center = 430000000 + 1000 * k
        hold = []
        if how in ("close_before_request", "rst_before_request"):
            self.mode["connect"] = how
        elif how == "dead":
            self.up.stop(); self.up = None
        elif how == "backlog":
            self.up.stop(); self.up = None
            l = socket.socket(); l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            bind_retry(l, srv.conf["rx_sdr_server_address"], srv.conf["rx_sdr_server_port"]); l.listen(0)
            hold.append(l)
            for _ in range(3):
                x = socket.socket(); x.setblocking(False)
                try:
                    x.connect((srv.conf["rx_sdr_server_address"], srv.conf["rx_sdr_server_port"]))
                except BlockingIOError:
                    pass
                hold.append(x)
        else:
            self.mode[center] = how
        cl = srv.client(timeout=4 * self.rt + 12)
        t = time.time()
        try:
            r = cl.open(T_RX, rx_body(**self.req(k)))
            end = cl.read_to_end()
            if r != (FAIL, INTERNAL) or end:
                self.viol("setup-response:" + how, "upstream %s: answered with %s and %d bytes" % (how, r, len(end)))
        except (Gone, Quiet, ValueError) as e:
            self.viol("setup-response:" + how, "upstream %s: %r after %.1f s" % (how, e, time.time() - t))
        cl.close()
        for x in hold:
            try:
                x.shutdown(socket.SHUT_RDWR)    # a process being started may hold a copy for a moment
            except OSError:
                pass
            x.close()
        self.mode.clear()
        self.start_up()
        c.count(1, 1)
        c.add("setup_" + how)
        if srv.ping() != (OK, 0):
            self.viol("ping", "after upstream %s" % how)

    # ---- one stream; -> clients left open
    def stream(self, k, n, cut, how, slow=0, keep=False):
        """n clients share the stream, which ends after `cut` bytes"""
        srv, c, rng = self.srv, self.c, self.rng
        before = len(self.up.conns)
        cls = []
        for i in range(n):
            cl = srv.client(timeout=30)
            rq = self.req(k, dest=rng.choice([0, 1, 2]), dump=rng.random() < 0.5)
            r = cl.open(T_RX, rx_body(**rq))
            if r[0] != OK:
                self.viol("refused", "request %d of a stream was refused: %s" % (i, r))
                return []
            cl.rq = rq
            cls.append(cl)
        if not wait_for(lambda: len(self.up.conns) > before, 10):
            self.viol("no-connection", "the request was accepted, but there is no new upstream connection (the previous stream with the tuning has ended)")
            return []
        cn = self.up.conns[before]
        if len(self.up.conns) != before + 1 or cn.request != (cls[0].rq["center"], 48000, cls[0].rq["center"], 1):
            self.viol("connections", "%d connections, the first one for %s" % (len(self.up.conns) - before, cn.request))
        # the first buffers may precede the attachment of the followers
        srv.idle(5, 0.05) if n > 1 else None
        rds = [Reader(cl) for cl in cls]
        p = 0
        while p < cut:
            m = min(cut - p, rng.choice([1, 7, 100, 1000, 8192, 20000]))
            cn.send(self.data[p:p + m])
            p += m
            if slow and rng.random() < slow:
                time.sleep(rng.choice([0.01, 0.05]))
        if how == "fin":
            cn.close()
        elif how == "half":
            cn.s.shutdown(socket.SHUT_WR)
        elif how == "rst":
            time.sleep(rng.choice([0, 0.05]))
            cn.close(abort=True)
        path = tmp(c, ".cf32")
        with open(path, "wb") as f:
            f.write(self.data[:cut // 8 * 8])
        want = ref_demod(c, path, cls[0].rq) if cut >= 8 else b""
        os.unlink(path)
        for cl, rd in zip(cls, rds):
            ended = rd.wait_end(self.rt * 3 + 10)
            got = bytes(rd.data)
            label = "%d clients, %d bytes, then %s" % (n, cut, how)
            if not ended:
                self.viol("not-disconnected", "%s: still connected" % label)
            else:
                outs = [("socket", got, want if cl.rq["dest"] != 0 else b"")]
                for kind, w, needed in (("demod2client", want, cl.rq["dest"] != 1), ("sdr2demod", self.data[:cut // 8 * 8], cl.rq["dump"])):
                    if needed:
                        wait_for(lambda: len(srv.dump(kind, cl.id) or b"") >= len(w), 5 if how != "rst" else 0.3)
                        outs.append((kind, srv.dump(kind, cl.id) or b"", w))
                for name, g, w in outs:
                    if g != w and (how != "rst" or g != w[:len(g)]):
                        self.viol("data", "%s: %s, destination %d: %s" % (label, name, cl.rq["dest"], diff_text(g, w)))
            if not keep:
                cl.close()
        c.count(1, 1)
        c.add("streams_" + how)
        return cls if keep else []

    def bystander(self):
        cl = self.srv.client(timeout=30)
        before = len(self.up.conns)
        rq = self.req(900)
        if cl.open(T_RX, rx_body(**rq))[0] != OK:
            raise ValueError("bystander refused")
        cn = self.up.wait_conn(before)
        return cl, rq, cn, Reader(cl)


def setup_job(c, j):
    seed, hows = j
    w = World(c, seed, 1)
    try:
        for h in hows:
            w.fail(h)
            # afterwards it works
            w.stream(1, 1, w.rng.choice([0, 8, 8000, len(w.data)]), "fin")
    except (Gone, Quiet, ValueError, OSError) as e:
        w.viol("session", repr(e))
    finish_server(c, w.srv, "setup")
    w.up and w.up.stop()


def stream_job(c, j):
    seed, rounds = j
    w = World(c, seed, 2)
    rng = w.rng
    if seed % 2:
        w.srv.ctl.delays(400, 3000, seed=seed)
        c.add("streams_with_delays")
    try:
        by = w.bystander() if rng.random() < 0.7 else None
        sent = b""
        kept = []
        for r in range(rounds):
            k = rng.choice([1, 1, 2])
            what = rng.random()
            if what < 0.25:
                h = rng.choice([x for x in SETUP if x not in SLOW and x not in ("dead",)])
                w.fail(h, k)
            else:
                total = len(w.data)
                cut = rng.choice([0, 1, 7, 8, 9, rng.randrange(total), rng.randrange(total) // 8 * 8, w.srv.conf["buffer_size"] * 8, w.srv.conf["buffer_size"] * 8 * 2, total])
                kept += w.stream(k, rng.choice([1, 1, 2, 3]), min(cut, total), rng.choice(["fin", "fin", "half", "rst"]), rng.choice([0, 0, 0.3]), rng.random() < 0.3)
            if by:
                b = w.data[:w.srv.conf["buffer_size"] * 8] if rng.random() < 0.7 else w.data
                by[2].send(b)
                sent += b
        if by:
            path = tmp(c, ".cf32")
            with open(path, "wb") as f:
                f.write(sent)
            want = ref_demod(c, path, by[1])
            os.unlink(path)
            by[3].wait_len(len(want), 15)
            if bytes(by[3].data) != want:
                w.viol("bystander", "client of another tuning: " + diff_text(bytes(by[3].data), want))
            c.add("bystanders")
        for cl in kept:
            cl.close()
    except (Gone, Quiet, ValueError, OSError) as e:
        import traceback
        w.viol("session", "%r %s" % (e, traceback.format_exc().strip().split("\n")[-3:]))
    finish_server(c, w.srv, "stream")
    w.up and w.up.stop()


def stuck_job(c, seed):
    """the stream ends while one of its clients doesn't read: others and later requests are not affected"""
    w = World(c, seed, 1)
    srv = w.srv
    try:
        before = len(w.up.conns)
        srv.ctl.set("sndbuf", 2048)
        slow = srv.client(timeout=30, rcvbuf=2048)
        r = slow.open(T_RX, rx_body(**w.req(1)))
        srv.ctl.set("sndbuf", 0)
        cn = w.up.wait_conn(before)
        for _ in range(12):
            cn.send(w.data)
            time.sleep(0.01)
        srv.idle(3, 0.2)
        cn.close() if w.rng.random() < 0.5 else cn.close(abort=True)
        time.sleep(w.rng.choice([0.05, 0.5]))
        for _ in range(2):
            w.stream(1, 2, len(w.data), "fin")
        w.fail("refuse")
        slow.close(abort=w.rng.random() < 0.5)
        w.stream(1, 1, len(w.data), "fin")
        c.add("stuck_clients")
    except (Gone, Quiet, ValueError, OSError) as e:
        w.viol("session", repr(e))
    finish_server(c, srv, "stuck")
    w.up and w.up.stop()


def main(c):
    c.cov["rule"] = ("every way of failing during set-up and streams that end after chosen numbers of bytes (FIN, half-close, RST) under 1-3 clients, each followed by a working stream with the same "
                     "tuning; responses, upstream connections, delivered data and a client of another tuning compared with the reference")
    build_server(c); build_ref(c)
    rng = random.Random(SEED)
    hows = list(SETUP)
    rng.shuffle(hows)
    jobs = []
    slow = [h for h in hows if h in SLOW]
    fast = [h for h in hows if h not in SLOW]
    n = SEED * 1000
    for h in slow:
        jobs.append((setup_job, (n, [h] * quick(2, 6)))); n += 1
    for i in range(0, len(fast), 4):
        jobs.append((setup_job, (n, fast[i:i + 4] * quick(1, 4)))); n += 1
    for i in range(quick(40, 400)):
        jobs.append((stream_job, (n, quick(10, 30)))); n += 1
    for i in range(quick(6, 30)):
        jobs.append((stuck_job, n)); n += 1
    parallel(lambda x: x[0](c, x[1]), jobs)
    c.sample("upstream answers 5 of 7 bytes and goes silent: (failure, internal error); then it accepts: the stream is delivered exactly")


run_check(main, "S15")
