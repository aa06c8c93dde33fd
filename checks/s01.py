import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

BAD_TLE = [TLE[0], TLE[1][:-1] + "3", TLE[2]]
ANY_OK = ("ok",)


def incomplete_doppler():
    t = b"".join(fbytes(1, x) for x in TLE)
    return [("latitude", t + fint(3, 1) + fint(4, 1)), ("longitude", t + fint(2, 1) + fint(4, 1)), ("altitude", t + fint(2, 1) + fint(3, 1)), ("tle", fint(2, 1) + fint(3, 1) + fint(4, 1))]


def far_starts(rng):
    """starts for which these elements describe no orbit"""
    return [("2^32", TLE_START + (1 << 32)), ("2^33", TLE_START + (1 << 33)), ("year-10000", 253402300800), ("2^62", 1 << 62), ("2^63-1", (1 << 63) - 1),
            ("200-years-before", TLE_START - 200 * 31557600), ("-2^33", -(1 << 33)), ("year-0", -62167219200), ("-2^62", -(1 << 62)), ("-2^63", -(1 << 63)),
            ("wraps", (TLE_START * 4294967296 + TLE_START) % (1 << 63))]


def rx_cases(rng, mode, sig, up_ok=True):
    """(name, body, expected) for a receiver of kind `mode`"""
    base = dict(file=dict(filename=sig, start=TLE_START)) if mode == "file" else {}
    if mode == "pluto":
        base["fs"], base["baud"], base["dec"] = 1000000, 100000, 1
        base["fsk"] = dict(dev=50000, tw=100000, dc=True)
    fsk = base.get("fsk", RX_DEF["fsk"])
    def rq(omit=(), extra=b"", **kw):
        p = dict(base)
        # settings that make no difference to the answer
        if rng.random() < 0.5:
            p.update(dump=rng.random() < 0.3, dest=rng.randrange(3), offset=rng.choice([0, 700, -700]),
                     fsk=dict(fsk, dc=rng.random() < 0.5, dev=rng.choice([-1, 1]) * fsk["dev"]))
            if rng.random() < 0.3 and not extra:
                p["doppler"] = DOPPLER
        p.update(kw)
        return rx_body(omit, extra, **p)
    def padded(n):
        b = rq(fsk=fsk, doppler=None)
        k = n - len(b) - 5
        return b + b"\xc2\x0c" + bytes([k & 127 | 128, k >> 7 & 127 | 128, k >> 14]) + bytes(k)
    ok, inv, internal = ("ok",), (FAIL, INVALID), (FAIL, INTERNAL)
    out = [("valid", rq(), ok), ("dest-file", rq(dest=0), ok), ("dest-both", rq(dest=2), ok), ("dump", rq(dump=True), ok),
           ("dc-off", rq(fsk=dict(fsk, dc=False)), ok),
           ("negative-deviation", rq(fsk=dict(fsk, dev=-fsk["dev"])), ok),
           ("offset", rq(offset=-1500), ok), ("unknown-field", rq(extra=fint(77, 5) + fbytes(78, b"xyz")), ok),
           ("doppler", rq(doppler=DOPPLER), ok),
           ("unneeded-file", rq(file=dict(filename=sig, start=TLE_START)), ok),
           ("demod-type-0", rq(type=0), inv), ("demod-type-2", rq(type=2), inv), ("demod-type-big", rq(type=2147483647), inv),
           ("center-0", rq(center=0), inv), ("fs-0", rq(fs=0), inv), ("baud-0", rq(baud=0), inv),
           ("dec-0", rq(dec=0), inv), ("dec-256", rq(dec=256), inv), ("dec-257", rq(dec=257), inv), ("dec-max", rq(dec=4294967295), inv),
           ("dest-3", rq(dest=3), inv), ("dest-99", rq(dest=99), inv), ("no-fsk", rq(fsk=None), inv), ("tw-0", rq(fsk=dict(fsk, tw=0)), inv),
           ("tle-0", rq(doppler=dict(DOPPLER, tle=[])), inv), ("tle-1", rq(doppler=dict(DOPPLER, tle=TLE[:1])), inv),
           ("tle-2", rq(doppler=dict(DOPPLER, tle=TLE[:2])), inv), ("tle-4", rq(doppler=dict(DOPPLER, tle=TLE + [TLE[0]])), inv),
           ("garbage", bytes(rng.getrandbits(8) | 0x80 for _ in range(40)), inv), ("empty", b"", inv),
           ("truncated", rq()[:-3], inv),
           ("tle-checksum", rq(doppler=dict(DOPPLER, tle=BAD_TLE)), internal),
           ("tle-swapped", rq(doppler=dict(DOPPLER, tle=[TLE[0], TLE[2], TLE[1]])), internal),
           ("tle-empty-lines", rq(doppler=dict(DOPPLER, tle=["", "", ""])), internal),
           ("baud-above-fs", rq(baud=100000000), internal),
           ("baud-above-decimated-fs", rq(baud=int(base.get("fs", 48000) * 0.4), dec=4), internal)]
    for f in ("center", "fs", "dump", "offset", "type", "baud", "dec", "dest", "fsk", "fsk.dev", "fsk.tw", "fsk.dc"):
        out.append(("missing-" + f, rq(omit=(f,)), inv))
    out += [("missing-" + n, rq(doppler=None, extra=fbytes(9, b)), inv) for n, b in incomplete_doppler()]
    out += [("missing-filename", rq(file=None, extra=fbytes(11, fint(2, 5))), inv), ("missing-start", rq(file=None, extra=fbytes(11, fbytes(1, sig))), inv),
            ("longest", padded(32768), ok), ("longest-1", padded(32767), ok), ("longest+1", padded(32769), inv),
            ("two-mistakes", rq(baud=rng.choice([0, 100000000]), dec=0), inv), ("tw-0-and-bad-tle", rq(fsk=dict(fsk, tw=0, dc=False), doppler=dict(DOPPLER, tle=BAD_TLE)), inv)]
    if mode == "file":
        out += [("missing-file", rq(file=None), inv), ("no-such-file", rq(file=dict(filename="/nonexistent/x", start=0)), internal)]
    if mode != "pluto":
        # the settings of a file count even where the samples come from elsewhere
        for n, t in far_starts(rng):
            out.append(("start-" + n, rq(doppler=DOPPLER, file=dict(filename=sig, start=t)), internal))
    if mode == "sdr":
        out += [("center-33-bits", rq(center=1 << 32), internal), ("fs-33-bits", rq(fs=(1 << 32) + 48000), internal),
                ("fs-33-bits-wide", rq(fs=(1 << 32) + 1000000000, baud=1000000000, dec=1, fsk=dict(dev=250000000, tw=100000000, dc=True), doppler=None), internal),
                ("tuned-negative", rq(center=1000, offset=-2000), internal), ("tuned-33-bits", rq(center=4294967295, offset=1), internal)]
    if mode == "pluto":
        out += [("fs-too-low", rq(fs=400000, baud=40000), internal)]
    return out


def tx_cases(rng, mode, path):
    base = dict(file=dict(filename=path, start=TLE_START)) if mode == "file" else {}
    if mode == "pluto":
        base["fs"], base["baud"] = 1000000, 100000
    def rq(omit=(), extra=b"", **kw):
        p = dict(base)
        if rng.random() < 0.5:
            p.update(dump=rng.random() < 0.3, offset=rng.choice([0, 700, -700]), fsk=dict(dev=rng.choice([-5000, 5000])))
            if rng.random() < 0.3 and not extra:
                p["doppler"] = DOPPLER
        p.update(kw)
        return tx_body(omit, extra, **p)
    def padded(n):
        b = rq(doppler=None)
        k = n - len(b) - 5
        return b + b"\xc2\x0c" + bytes([k & 127 | 128, k >> 7 & 127 | 128, k >> 14]) + bytes(k)
    none = mode == "none"
    ok, inv, internal = ("ok",), (FAIL, INVALID), (FAIL, INTERNAL)
    out = [("valid", rq(), ok), ("dump", rq(dump=True), ok), ("offset", rq(offset=2500), ok), ("negative-offset", rq(offset=-2500), ok),
           ("negative-deviation", rq(fsk=dict(dev=-5000)), ok), ("doppler", rq(doppler=DOPPLER), ok), ("unknown-field", rq(extra=fint(99, 1)), ok),
           ("mod-type-0", rq(type=0), inv), ("mod-type-2", rq(type=2), inv), ("center-0", rq(center=0), inv), ("fs-0", rq(fs=0), inv),
           ("baud-0", rq(baud=0), inv), ("no-fsk", rq(fsk=None), inv), ("tle-2", rq(doppler=dict(DOPPLER, tle=TLE[:2])), inv),
           ("tle-0", rq(doppler=dict(DOPPLER, tle=[])), inv), ("tle-4", rq(doppler=dict(DOPPLER, tle=TLE + [""])), inv),
           ("garbage", b"\xff" * 30, inv), ("empty", b"", inv), ("truncated", rq()[:-2], inv),
           ("tle-checksum", rq(doppler=dict(DOPPLER, tle=BAD_TLE)), internal),
           ("baud-above-fs", rq(baud=100000000), internal), ("samples-per-symbol-256", rq(fs=256000000, baud=1000), internal)]
    for f in ("center", "fs", "dump", "offset", "type", "baud", "fsk", "fsk.dev"):
        out.append(("missing-" + f, rq(omit=(f,)), inv))
    out += [("missing-" + n, rq(doppler=None, extra=fbytes(7, b)), inv) for n, b in incomplete_doppler()]
    out += [("missing-filename", rq(file=None, extra=fbytes(9, fint(2, 5))), inv), ("missing-start", rq(file=None, extra=fbytes(9, fbytes(1, path))), inv),
            ("longest", padded(32768), ok), ("longest-1", padded(32767), ok), ("longest+1", padded(32769), inv),
            ("two-mistakes", rq(baud=100000000, fsk=None), inv)]
    if mode == "file":
        out += [("missing-file", rq(file=None), inv), ("no-such-directory", rq(file=dict(filename=path + "/a/b", start=0)), internal)]
    for n, t in far_starts(rng):
        out.append(("start-" + n, rq(doppler=DOPPLER, file=dict(filename=path, start=t)), internal))
    if none:
        out = [(n, b, inv) for n, b, _ in out]
    return out


class Session:
    """one server, its identifiers and how many connections it has seen"""
    def __init__(self, c, srv, label, rng):
        self.c, self.srv, self.label, self.rng = c, srv, label, rng
        self.n, self.last = 0, None       # connections so far, (count, id) of the last success

    def viol(self, key, det, case):
        self.c.violation("%s:%s" % (key, self.label), "%s %s: %s" % (self.label, case, det), {"label": self.label, "case": case, "conf": self.srv.conf})

    def connect(self):
        self.n += 1
        return self.srv.client(timeout=20)

    def ident(self, ident, case):
        if self.last is not None:
            n, prev = self.last
            if ident - prev < self.n - n:
                self.viol("id-not-increasing", "identifier %d after %d although %d connections were accepted in between" % (ident, prev, self.n - n), case)
        self.last = (self.n, ident)

    def request(self, name, t, body, want, release=True):
        c, case = self.c, name
        for attempt in range(60):
            cl = self.connect()
            m = msg(t, body)
            try:
                if self.rng.random() < 0.3 and len(m) < 4000:
                    cl.send_parts(m, sorted(self.rng.randrange(1, len(m)) for _ in range(3)), 0.002)
                else:
                    cl.send(m)
            except OSError:
                pass
            try:
                got = cl.response()
            except (Gone, Quiet, ValueError, OSError) as e:
                self.viol("no-response", "expected %s, got no proper response: %r" % (want, e), case)
                cl.close()
                return False
            # the device of the previous session is released in the background
            if want == ANY_OK and got[0] == FAIL and got[1] in (TX_USED, RX_USED):
                cl.close()
                time.sleep(0.05)
                continue
            break
        c.count(1, 1)
        c.add("responses_" + ("success" if got[0] == OK else "failure_%d" % got[1]))
        if want == ANY_OK:
            if got[0] != OK:
                self.viol("response", "expected success, got %s" % (got,), case)
            else:
                self.ident(got[1], case)
        elif want == "ping":
            if got[0] != OK:
                self.viol("response", "expected success, got %s" % (got,), case)
        elif got != want:
            self.viol("response", "expected %s, got %s" % (want, got), case)
        # refused clients and pings are disconnected without anything else
        ok = got[0] == OK and want != "ping"
        try:
            if not ok:
                rest = cl.read_to_end()
                if rest:
                    self.viol("more-than-one-response", "followed by %s" % rest[:40].hex(), case)
            elif t == T_TX:
                cl.shutdown_session()
                rest = cl.read_to_end()
                if rest:
                    self.viol("more-than-one-response", "followed by %s" % rest[:40].hex(), case)
            else:
                cl.shutdown_session()
                rest = cl.read_to_end()
        except Quiet as e:
            self.viol("not-closed", str(e), case)
        except (Gone, OSError):
            pass
        cl.close()
        return True


def scenario(c, args):
    label, rxm, txm, seed, delays = args
    rng = random.Random(seed)
    sig = ref_signal(c, seed, 400, 10, 48000, 5000)
    conf = dict(rx_sdr_type={"file": "file", "sdr": "sdr-server", "pluto": "plutosdr"}[rxm], tx_sdr_type={"file": "file", "none": "none", "pluto": "plutosdr"}[txm],
                read_timeout_seconds=2, buffer_size=rng.choice([512, 2048, 5000]))
    srv = Server(c, iio="pluto" in (rxm, txm), **conf)
    up = None
    if rxm == "sdr":
        data = readf(sig)
        def script(cn):
            if cn.read_request() is None:
                return
            cn.respond()
            cn.watch()
            cn.send(data)
        up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"], script)
    if "pluto" in (rxm, txm):
        with open(srv.iio + "/rx", "wb") as f:
            f.write(bytes(4000))
    if delays:
        srv.ctl.delays(200, 1500, seed=seed)
    s = Session(c, srv, label, rng)
    for _ in range(quick(10, 40)):
        cases = [("rx " + n, T_RX, b, w) for n, b, w in rx_cases(rng, rxm, sig)] + [("tx " + n, T_TX, b, w) for n, b, w in tx_cases(rng, txm, srv.dir + "/tx.cf32")]
        cases += [("ping", T_PING, b"", "ping")] * 5
        cases += [("type %d" % t, t, b"", (FAIL, INVALID)) for t in (T_SHUTDOWN, T_RESPONSE, T_TXDATA, 6, 7, 100, 255)]
        cases += [("message too long", T_RX, bytes(32 * 1024 + 1), (FAIL, INVALID)), ("tx message too long", T_TX, bytes(40000), (FAIL, INVALID))]
        rng.shuffle(cases)
        for name, t, b, w in cases:
            if not s.request(name, t, b, w) and not srv.alive():
                break
        # unsupported protocol version
        for v in (1, 2, 255):
            cl = s.connect()
            try:
                cl.send(msg(rng.choice([T_PING, T_RX, T_TX]), b"", version=v))
                got = cl.response()
                if got != (FAIL, INVALID):
                    s.viol("response", "version %d: got %s" % (v, got), "version")
                cl.read_to_end()
            except (Gone, Quiet, ValueError, OSError) as e:
                s.viol("no-response", "version %d: %r" % (v, e), "version")
            c.count(1, 1)
            cl.close()
        if not srv.alive():
            break
    finish_server(c, srv, label)
    if up:
        up.stop()


def concurrent_ids(c, seed):
    """identifiers of clients that open at the same time are unique and follow the order of non-overlapping opens"""
    srv = Server(c, rx_sdr_type="file")
    sig = ref_signal(c, seed, 400, 10, 48000, 5000)
    srv.ctl.delays(300, 1000, seed=seed)
    got, lock = [], threading.Lock()
    def one(i):
        for k in range(quick(25, 60)):
            cl = srv.client(timeout=30)
            t0 = time.time()
            try:
                r = cl.open(T_RX, rx_body(file=dict(filename=sig), dest=1 + (i + k) % 2))
                t1 = time.time()
                with lock:
                    got.append((t0, t1, r))
                if r[0] == OK and k % 2:
                    cl.shutdown_session()
                    cl.read_to_end()
            except (Gone, Quiet, ValueError, OSError) as e:
                with lock:
                    got.append((t0, time.time(), e))
            cl.close(abort=k % 3 == 0)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ids = []
    for t0, t1, r in got:
        c.count(1, 1)
        if not isinstance(r, tuple) or r[0] != OK:
            c.violation("response:concurrent", "valid concurrent request was answered with %r" % (r,))
        else:
            ids.append((t0, t1, r[1]))
    if len(set(i for _, _, i in ids)) != len(ids):
        c.violation("id-reused:concurrent", "identifiers %s" % sorted(i for _, _, i in ids))
    for a in ids:
        for b in ids:
            # connected after the other one had been answered
            if a[1] < b[0] and a[2] >= b[2]:
                c.violation("id-not-increasing:concurrent", "%s then %s" % (a, b))
    c.add("concurrent_opens", len(ids))
    finish_server(c, srv, "concurrent")


def far_ids(c, seed):
    """identifiers stay unique and increasing over a number of connections that doesn't fit into 8 or 16 bits"""
    srv = Server(c, rx_sdr_type="file", tx_sdr_type="file")
    sig = ref_signal(c, seed, 400, 10, 48000, 5000)
    last = n = 0
    try:
        for i, pings in enumerate([0, 1, 120, 5, 100, 40, 700, 32000, 200, 32500, 700, 66000 if THOROUGH else 5]):
            for _ in range(pings):
                if srv.ping() != (OK, 0):
                    c.violation("response:far", "ping failed")
            cl = srv.client(timeout=30)
            t, b = (T_RX, rx_body(file=dict(filename=sig), dest=i % 3)) if i % 2 else (T_TX, tx_body(file=dict(filename=srv.dir + "/far")))
            r = cl.open(t, b)
            if r[0] != OK:
                c.violation("response:far", "valid request was answered with %s" % (r,))
            elif i and r[1] < last + pings + 1:
                c.violation("id-not-increasing:far", "identifier %d after %d, although %d connections were accepted in between" % (r[1], last, pings))
            last = r[1]
            n += pings + 1
            cl.shutdown_session()
            cl.read_to_end()
            cl.close()
            srv.idle(5, 0.02)
            c.count(1, 1)
    except (Gone, Quiet, ValueError, OSError) as e:
        c.violation("response:far", "valid request: %r" % e)
    c.add("identifiers_passed", n)
    finish_server(c, srv, "far")


def slow_openings(c, seed):
    """requests that arrive bit by bit, but within the read timeout"""
    rt = 3
    rng = random.Random(seed)
    srv = Server(c, rx_sdr_type="file", tx_sdr_type="file", read_timeout_seconds=rt)
    sig = ref_signal(c, seed, 400, 10, 48000, 5000)
    try:
        for i in range(quick(8, 24)):
            t, b = (T_RX, rx_body(file=dict(filename=sig))) if i % 2 else (T_TX, tx_body(file=dict(filename=srv.dir + "/slow")))
            m = msg(t, b)
            time.sleep(rng.random())
            cl = srv.client(timeout=30)
            start, n = time.time(), rng.randrange(15, 30)
            cl.send_parts(m, sorted(rng.randrange(1, len(m)) for _ in range(n)), rt * 0.94 / (n + 1))
            took = time.time() - start
            r = cl.response()
            if r[0] != OK and took < rt * 0.98:
                c.violation("response:slow", "valid request that arrived within %.2f s of a read timeout of %d s was answered with %s" % (took, rt, r))
            c.count(1, 1)
            c.add("slow_openings")
            cl.shutdown_session()
            cl.read_to_end()
            cl.close()
            srv.idle(5, 0.05)
    except (Gone, Quiet, ValueError, OSError) as e:
        c.violation("response:slow", "valid request: %r" % e)
    finish_server(c, srv, "slow")


def main(c):
    c.cov["rule"] = "one opening message per evaluation against the running server; expected response from a model of the documented fields; every case is a different message"
    build_server(c); build_ref(c); build_iio(c)
    modes = [("file/file", "file", "file"), ("sdr-server/none", "sdr", "none"), ("plutosdr/plutosdr", "pluto", "pluto"), ("sdr-server/file", "sdr", "file")]
    jobs = [(l, r, t, SEED * 100 + i, i % 2 == 1) for i, (l, r, t) in enumerate(modes)]
    if THOROUGH:
        jobs += [(l, r, t, SEED * 100 + 50 + k * 10 + i, k % 2 == 0) for k in range(3) for i, (l, r, t) in enumerate(modes)]
    fs = [lambda j=j: scenario(c, j) for j in jobs] + [lambda k=k: concurrent_ids(c, SEED * 1000 + k) for k in range(quick(4, 12))] + [lambda: far_ids(c, SEED), lambda: slow_openings(c, SEED * 1000 + 900)]
    parallel(lambda f: f(), fs)
    c.sample("rx missing-fsk.tw -> failure, invalid request; rx tle-checksum -> failure, internal error; tx valid -> success with identifier")


run_check(main, "S01")
