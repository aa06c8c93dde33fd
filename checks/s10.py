import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

PL = dict(fs=1000000, baud=100000)
PLTX = dict(PL, fsk=dict(dev=50000))
PLRX = dict(PL, dec=1, fsk=dict(dev=50000, tw=100000, dc=True))


def iio_log(srv):
    try:
        return readf(srv.iio + "/log").decode("latin1").split("\n")
    except FileNotFoundError:
        return []


def check_log(c, srv, label, end):
    """at most one buffer per direction, everything released once"""
    n, most = {}, {}
    for l in iio_log(srv):
        p = l.split(" ")
        if p[0] in ("acquire", "release"):
            k = " ".join(p[1:3]) if p[1] in ("buffer",) else " ".join(p[1:])
            if p[1] == "channel":
                continue
            n[k] = n.get(k, 0) + (1 if p[0] == "acquire" else -1)
            most[k] = max(most.get(k, 0), n[k])
            if n[k] < 0:
                c.violation("released-twice:" + label, "%s released without having been acquired" % k)
    for k, v in most.items():
        if v > 1 and (k.startswith("buffer") or k == "context"):
            c.violation("two-owners:" + label, "%d of %s at the same time" % (v, k))
    if end:
        for k, v in n.items():
            if v:
                c.violation("not-released:" + label, "%s: %d left at the end" % (k, v))
    return most


class Owner:
    """a session that owns a device; knows whether it is still working"""
    def __init__(self, c, srv, d, mode, seed):
        self.c, self.srv, self.d, self.mode, self.rng = c, srv, d, mode, random.Random(seed)
        self.path = os.path.join(srv.dir, "own-%d" % seed)
        self.sent = b""
        self.cl = None

    def body(self):
        if self.d == "tx":
            if self.mode == "file":
                self.req = dict(file=dict(filename=self.path))
            else:
                self.req = dict(PLTX)
            return T_TX, tx_body(**self.req)
        self.req = dict(PLRX)
        return T_RX, rx_body(**self.req)

    def open(self, retry=True):
        t, b = self.body()
        if retry:
            self.cl, r = open_device(self.srv, t, b)
        else:
            self.cl = self.srv.client(timeout=30)
            r = self.cl.open(t, b)
        if r[0] == OK:
            self.rd = Reader(self.cl) if self.d == "rx" else None
            # whatever the previous owner has transmitted, it cannot transmit any more
            self.base = os.path.getsize(self.srv.iio + "/tx") if self.mode == "pluto" and self.d == "tx" and os.path.exists(self.srv.iio + "/tx") else 0
        return r

    def work(self):
        """-> None if the session works, otherwise what is wrong"""
        try:
            if self.d == "tx":
                data = self.rng.randbytes(self.rng.randrange(1, 300))
                self.cl.send(tx_data(data))
                r = self.cl.response()
                self.sent += data
                if r != (OK, 0):
                    return "transmit message answered with %s" % (r,)
            else:
                n = len(self.rd.data)
                if not self.rd.wait_len(n + 1, 15):
                    return "no more data"
        except (Gone, Quiet, ValueError, OSError) as e:
            return repr(e)
        return None

    def leave(self, how):
        cl = self.cl
        try:
            if how == "shutdown":
                cl.shutdown_session()
            elif how == "half":
                cl.send(b"\0\1")
                cl.s.shutdown(socket.SHUT_WR)
            elif how == "mid-message":
                cl.send(msg(T_TXDATA, b"", length=5000) + b"abc")
                cl.s.shutdown(socket.SHUT_WR)
            elif how == "fin":
                cl.s.shutdown(socket.SHUT_WR)
            elif how == "pending":
                if self.d == "tx":
                    cl.send(tx_data(bytes(3000)) * 3)
                cl.close(abort=True)
        except OSError:
            pass
        if self.rd:
            self.rd.stopped = True
        cl.close(abort=how == "rst")

    def leave_and_see(self, how):
        """leaves in order and keeps reading until the server closes the connection.  -> None or what is wrong"""
        try:
            if how == "shutdown":
                self.cl.shutdown_session()
            else:
                self.cl.s.shutdown(socket.SHUT_WR)
            if self.rd:
                ok = self.rd.wait_end(20)
                self.rd.stopped = True
            else:
                self.cl.read_to_end()
                ok = True
        except (OSError, Quiet) as e:
            ok = False
        self.cl.close()
        return None if ok else "the connection is still open"

    def exact(self, complete):
        """the samples of this owner only (transmitter); call when nobody else has transmitted since"""
        if self.d != "tx":
            return None
        want = ref_mod(self.c, self.sent, self.req)
        if self.mode == "file":
            got = readf(self.path)
            if complete and got != want or got[:len(want)] != want:
                return diff_text(got, want, 8)
            return None
        got = readf(self.srv.iio + "/tx")[self.base:]
        if complete and len(got) * 2 != len(want):
            return "%d samples instead of %d" % (len(got) // 4, len(want) // 8)
        return compare(self.c, "near16", got[:len(want) // 2], want, 1)


def failing_bodies(d, mode, srv, rng):
    """requests whose set-up fails"""
    bad = dict(DOPPLER, tle=[TLE[0], TLE[2], TLE[1]])
    base = dict(PLTX if d == "tx" else PLRX) if mode == "pluto" else {}
    if mode == "file":
        base["file"] = dict(filename=srv.dir + "/setup")
    if d == "tx":
        out = [tx_body(**dict(base, doppler=bad)), tx_body(**dict(base, baud=100000000)), tx_body(**dict(base, type=9))]
        if mode == "file":
            out.append(tx_body(file=dict(filename=srv.dir + "/no/such/dir")))
        else:
            out.append(tx_body(**dict(base, fs=400000, baud=40000)))
        return T_TX, out
    return T_RX, [rx_body(**dict(base, doppler=bad)), rx_body(**dict(base, baud=100000000)), rx_body(**dict(base, dec=0)), rx_body(**dict(base, fs=400000, baud=40000))]


def sequence(c, srv, seed, d, mode, steps):
    """model: owner or nobody"""
    rng = random.Random(seed)
    used = TX_USED if d == "tx" else RX_USED
    hist, bad = [], []
    def viol(key, det):
        bad.append(1)
        c.violation("%s:%s-%s" % (key, d, mode), "%s; history %s" % (det, hist[-15:]), {"seed": seed, "history": hist, "conf": srv.conf})
    owner, k = None, 0
    fresh = True         # nobody has owned the device since the last known release
    for step in range(steps):
        if bad or not srv.alive():
            return
        x = rng.random()
        c.count(1, 1)
        try:
            if owner is None:
                if x < 0.45:
                    # set-up fails in different places, with or without an injected failure
                    t, bodies = failing_bodies(d, mode, srv, rng)
                    cl = None
                    if rng.random() < 0.5:
                        srv.ctl.arm(rng.choice([F_ALLOC, F_ALLOC, F_FILE, F_THREAD, F_IIO] if mode == "pluto" else [F_ALLOC, F_ALLOC, F_FILE, F_THREAD]), rng.randrange(1, 30))
                        o = Owner(c, srv, d, mode, seed * 1000 + k)
                        k += 1
                        t, b = o.body()
                        cl = srv.client(timeout=20)
                        try:
                            r = cl.open(t, b)
                        except (Gone, ValueError) as e:
                            r = "disconnected"
                        fired, name, _ = srv.ctl.disarm()
                        hist.append("set-up with %s failing %s -> %s" % (name, fired, r))
                        c.add("setup_faults" if fired else "setup_ok")
                        if r == "disconnected" and not fired or r != "disconnected" and r[0] == FAIL and not fired and not (r[1] == used and not fresh):
                            viol("refused", "valid request with nobody owning the device: %s" % (r,))
                        cl.close()
                        # whoever may have been set up leaves again
                        if r == "disconnected" or r[0] == OK:
                            fresh = False
                    else:
                        b = rng.choice(bodies)
                        cl = srv.client(timeout=20)
                        r = cl.open(t, b)
                        hist.append("set-up failing -> %s" % (r,))
                        c.add("setup_refused")
                        if r[0] == OK or r[1] in (TX_USED, RX_USED) and fresh:
                            viol("setup", "expected a failure of its own, got %s" % (r,))
                        cl.close()
                else:
                    owner = Owner(c, srv, d, mode, seed * 1000 + k)
                    k += 1
                    # after a failed set-up the device is free at once, after a session very soon
                    r = owner.open(retry=not fresh)
                    hist.append("open%s -> %s" % ("" if fresh else " (retried)", r))
                    if r[0] != OK:
                        viol("not-released", "nobody owns the device, but the request was answered with %s" % (r,))
                        return
                    c.add("owners")
            else:
                if x < 0.5:
                    t, b = Owner(c, srv, d, mode, seed * 1000 + 999).body()
                    cl = srv.client(timeout=20)
                    r = cl.open(t, b)
                    hist.append("compete -> %s" % (r,))
                    if r != (FAIL, used):
                        viol("second-owner", "competing request answered with %s instead of %s" % (r, (FAIL, used)))
                    cl.close()
                    c.add("competitors")
                    w = owner.work()
                    if w:
                        viol("disturbed", "the owner after a competing request: %s" % w)
                elif x < 0.6:
                    hist.append("ping")
                    srv.ping()
                elif x < 0.75:
                    w = owner.work()
                    hist.append("work")
                    if w:
                        viol("disturbed", "the owner: %s" % w)
                else:
                    e = owner.exact(True)
                    if e:
                        viol("disturbed", "samples of the owner: " + e)
                    how = rng.choice(["shutdown", "fin", "rst", "half", "mid-message", "pending"])
                    hist.append("leave %s" % how)
                    seen = how in ("shutdown", "fin") and rng.random() < 0.6
                    if seen:
                        w = owner.leave_and_see(how)
                        hist.append("end of the connection")
                        if w:
                            viol("session", "the owner has left (%s): %s" % (how, w))
                            return
                        c.add("handovers_at_once")
                    else:
                        owner.leave(how)
                    owner, fresh = None, False
                    # from now on the device is released in the background; a failed set-up says nothing before somebody succeeded
                    nxt = Owner(c, srv, d, mode, seed * 1000 + k)
                    k += 1
                    # whoever has seen its connection closed can be followed at once
                    r = nxt.open(retry=not seen)
                    hist.append("next%s -> %s" % ("" if seen else " (retried)", r))
                    if r[0] != OK:
                        viol("not-released", "the owner has left (%s), but the next request was answered with %s" % (how, r))
                        return
                    c.add("handovers_" + how)
                    owner = nxt
                    w = owner.work()
                    if w:
                        viol("disturbed", "the next owner: %s" % w)
                    if rng.random() < 0.5:
                        # leave, and wait until the server has noticed: when its threads are gone the device is free
                        owner.leave("shutdown" if rng.random() < 0.5 else "fin")
                        owner = None
                        wait_for(lambda: srv.threads() <= srv.base_threads or not srv.alive(), 10)
                        if rng.random() < 0.5:
                            srv.ping()
                        hist.append("left")
                        fresh = srv.threads() <= srv.base_threads
        except (Gone, Quiet, ValueError, OSError) as e:
            viol("session", repr(e))
            return
    if owner:
        owner.leave("shutdown")


def race(c, srv, seed, d, mode):
    """many clients at the same time: exactly one owner"""
    used = TX_USED if d == "tx" else RX_USED
    for rnd in range(quick(6, 30)):
        res, lock = [], threading.Lock()
        bar = threading.Barrier(6)
        def one(i):
            o = Owner(c, srv, d, mode, seed * 1000 + rnd * 10 + i)
            try:
                bar.wait(20)
                r = o.open(retry=False)
            except (Gone, Quiet, ValueError, OSError, threading.BrokenBarrierError) as e:
                r = repr(e)
            with lock:
                res.append((r, o))
        # nobody owns it before
        wait_for(lambda: srv.threads() <= srv.base_threads or not srv.alive(), 15)
        ts = [threading.Thread(target=one, args=(i,)) for i in range(6)]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
        ok = [o for r, o in res if isinstance(r, tuple) and r[0] == OK]
        rest = [r for r, o in res if not (isinstance(r, tuple) and r[0] == OK)]
        c.count(6, 1)
        if len(ok) != 1 or any(r != (FAIL, used) for r in rest):
            c.violation("race:%s-%s" % (d, mode), "six requests at the same time were answered with %s" % [r for r, _ in res], {"seed": seed})
            return
        w = ok[0].work()
        if w:
            c.violation("disturbed:race-%s-%s" % (d, mode), w)
        for r, o in res:
            if o is ok[0]:
                o.leave(random.Random(seed + rnd).choice(["shutdown", "fin", "rst"]))
            elif o.cl:
                o.cl.close()
        c.add("races")


def held(c, srv, seed, d, mode, steps):
    """the other device is in use all the time"""
    other = Owner(c, srv, "rx" if d == "tx" else "tx", mode, seed * 1000 + 777)
    r = other.open()
    if r[0] != OK:
        c.violation("held:%s-%s" % (other.d, mode), "nobody owns the device, but the request was answered with %s" % (r,), {"seed": seed})
        return
    other.work()
    base, srv.base_threads = srv.base_threads, srv.threads()
    stop, bad = threading.Event(), []
    def keep():
        while not stop.is_set() and not bad:
            w = other.work()
            if w:
                bad.append(w)
            c.add("held_steps")
            time.sleep(0.05)
    t = threading.Thread(target=keep)
    t.start()
    try:
        sequence(c, srv, seed, d, mode, steps)
    finally:
        stop.set()
        t.join(60)
        srv.base_threads = base
    if bad and srv.alive():
        c.violation("disturbed:%s-%s" % (other.d, mode), "the %s in use all the time: %s" % (other.d, bad[0]), {"seed": seed})
    other.leave("shutdown")


def job(c, j):
    seed, d, mode, kind = j
    pluto = mode == "pluto"
    srv = Server(c, iio=pluto, env={"FAKE_IIO_SLOW_MS": "25"} if pluto and kind != "race" and seed // 100 % 2 else None, tx_sdr_type="plutosdr" if pluto else "file", rx_sdr_type="plutosdr" if pluto else "file", buffer_size=512, read_timeout_seconds=2)
    srv.base_threads = srv.threads()
    if pluto:
        # a signal for the receiver, long enough
        with open(srv.iio + "/rx", "wb") as f:
            f.write(random.Random(seed).randbytes(4000))
    if seed % 2:
        srv.ctl.delays(150, 1500, seed=seed)
    if kind == "race":
        race(c, srv, seed, d, mode)
    elif kind == "held":
        srv.ctl.arm = lambda *a: None
        held(c, srv, seed, d, mode, quick(30, 120))
    elif kind == "both":
        # transmitter and receiver are owned independently of each other
        ts = [threading.Thread(target=sequence, args=(c, srv, seed + i, x, mode, quick(25, 100))) for i, x in enumerate(("tx", "rx"))]
        # injected failures would hit the other session
        srv.ctl.arm = lambda *a: None
        [t.start() for t in ts]
        [t.join(300) for t in ts]
    else:
        sequence(c, srv, seed, d, mode, quick(60, 150))
    ended = wait_for(lambda: srv.threads() <= srv.base_threads or not srv.alive(), 15)
    finish_server(c, srv, "%s %s %s" % (d, mode, kind))
    if pluto:
        most = check_log(c, srv, "%s-%s" % (d, kind), True)
        c.add("iio_buffers_watched", sum(1 for k in most if k.startswith("buffer")))


def main(c):
    c.cov["rule"] = "one request, transmission or departure per evaluation against a model of the owner of the device; refusals, hand-over and the owner's samples checked"
    build_server(c); build_ref(c); build_iio(c)
    jobs = []
    for r in range(quick(5, 10)):
        s = SEED * 1000 + r * 100
        jobs += [(s + 1, "tx", "file", "seq"), (s + 2, "tx", "pluto", "seq"), (s + 3, "rx", "pluto", "seq"), (s + 10, "both", "pluto", "both"), (s + 21, "tx", "pluto", "held"), (s + 22, "rx", "pluto", "held")]
    jobs += [(SEED * 1000 + 51, "tx", "file", "race"), (SEED * 1000 + 52, "tx", "pluto", "race"), (SEED * 1000 + 53, "rx", "pluto", "race")]
    parallel(lambda j: job(c, j), jobs)
    c.sample("open -> success; compete -> failure, transmitter in use; leave rst; next -> success; set-up with malloc failing -> failure; open -> success at once")


run_check(main, "S10")
