import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

INTS = [0, 1, 2, 3, 4, 7, 8, 127, 128, 255, 256, 257, 4799, 4800, 4801, 9600, 48000, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967295, 4294967296,
        (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 4800, (1 << 64) - 2147483648]
MOD = [0, 1, 2, 100, 1200, 4799, 4800, 9600, 19200, 24000, 47999, 48000, 96000, 1000000]


def hostile_string(rng, srv):
    return rng.choice([b"", b"/", b"x", b"/dev/null", b"/dev/full", b"/dev/zero", b"/no/such/file", b"/proc/self/maps", b"%s%n%s%n%x", b"a" * 79, b"a" * 80, b"a" * 81, b"/" * 5000,
                       b"a" * 30000, bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 200))), b"\xff\xfe\0\x01abc", srv.dir.encode(), (srv.dir + "/fuzz-%d" % rng.randrange(9)).encode(),
                       TLE[0].encode(), TLE[1].encode(), TLE[2].encode()])


def tle_lines(rng, srv):
    t = [x.encode() for x in TLE]
    if srv is None:
        return t
    k = rng.randrange(8)
    if k == 0:
        return t
    if k == 1:
        return t[:rng.randrange(3)]
    if k == 2:
        return t + t[:rng.randrange(1, 3)]
    if k == 3:
        return [hostile_string(rng, srv) for _ in range(3)]
    if k == 4:
        return [t[0], t[2], t[1]]
    i = rng.randrange(3)
    b = bytearray(t[i])
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        b[rng.randrange(len(b))] = rng.choice(b"0123456789 .-+eE\0\xff")
    if k == 5:
        b = b[:rng.randrange(len(b) + 1)]
    t[i] = bytes(b)
    if k == 6:
        # a checksum that matches
        for i in (1, 2):
            s = sum(x - 48 if 48 <= x < 58 else 1 if x == 45 else 0 for x in t[i][:68])
            t[i] = t[i][:68] + (b"%d" % (s % 10)) + t[i][69:]
    return t


def fields(rng, srv, rx):
    """a request as a list of (number, kind, value)"""
    h = rng.choice([0, 0, 0.06, 0.12, 0.3, 0.5])
    def n(v):
        if rng.random() >= h:
            return v
        k = rng.random()
        return rng.choice(MOD) if k < 0.45 else rng.choice(INTS) if k < 0.9 else rng.getrandbits(rng.choice([8, 16, 32, 33, 63, 64]))
    d = None
    if rng.random() < 0.4:
        d = b"".join(fbytes(1, x) for x in tle_lines(rng, srv if h else None)) + fint(2, n(537200000)) + fint(3, n(475700000)) + fint(4, n(0))
    f = None
    if rng.random() < (0.9 if srv.conf["tx_sdr_type" if not rx else "rx_sdr_type"] == "file" else 0.3):
        f = fbytes(1, (srv.dir + "/in.cf32") if rx and rng.random() < 0.6 else (srv.dir + "/out-%d" % rng.randrange(4)) if rng.random() < 0.6 else hostile_string(rng, srv)) + fint(2, n(TLE_START))
    fs = 1000000 if srv.conf["rx_sdr_type"] == "plutosdr" else 48000
    if rx:
        out = [fint(1, n(437525000)), fint(2, n(fs)), fint(3, n(0)), fint(4, n(0)), fint(5, n(1)), fint(6, n(4800)), fint(7, n(2)), fint(8, n(1))]
        if d is not None:
            out.append(fbytes(9, d))
        if rng.random() < 0.95:
            out.append(fbytes(10, fint(1, n(5000)) + fint(2, n(2000)) + fint(3, n(1))))
        if f is not None:
            out.append(fbytes(11, f))
    else:
        out = [fint(1, n(437525000)), fint(2, n(fs)), fint(3, n(0)), fint(4, n(0)), fint(5, n(1)), fint(6, n(4800))]
        if d is not None:
            out.append(fbytes(7, d))
        if rng.random() < 0.95:
            out.append(fbytes(8, fint(1, n(5000))))
        if f is not None:
            out.append(fbytes(9, f))
    return out


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        k = rng.randrange(6)
        i = rng.randrange(len(b)) if b else 0
        if k == 0 and b:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1 and b:
            b[i] = rng.randrange(256)
        elif k == 2:
            b[i:i] = rng.randbytes(rng.randrange(1, 9))
        elif k == 3 and b:
            del b[i:i + rng.randrange(1, 9)]
        elif k == 4 and b:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.randrange(1, 40)]
        elif b:
            b[i] = rng.choice([0, 0x7f, 0x80, 0xff])
    return bytes(b)


def request(rng, srv, rx):
    """-> bytes of a complete or broken opening message"""
    f = fields(rng, srv, rx)
    k = rng.random()
    if k < 0.15:
        rng.shuffle(f)
    elif k < 0.2:
        del f[rng.randrange(len(f))]
    elif k < 0.3:
        f.insert(rng.randrange(len(f) + 1), rng.choice(f))
    body = b"".join(f)
    k = rng.random()
    if k < 0.2:
        body = mutate(rng, body)
    t = T_RX if rx else T_TX
    k = rng.random()
    if k < 0.06:
        return msg(t, body, length=rng.choice([0, 1, len(body) - 1, len(body) + 1, 32768, 32769, 1 << 31, (1 << 32) - 1]) & 0xffffffff)
    if k < 0.1:
        return mutate(rng, msg(t, body))
    if k < 0.16:
        m = msg(t, body)
        return m[:rng.randrange(len(m))]
    return msg(t, body)


def in_session(rng):
    """bytes inside a session"""
    out = b""
    for _ in range(rng.randrange(1, 6)):
        k = rng.randrange(12)
        n = rng.choice([0, 1, 2, 100, 1024, 1025, 5000])
        if k < 3:
            out += tx_data(rng.randbytes(rng.choice([0, 1, 2, 33, 500])))
        elif k == 3:
            out += msg(T_TXDATA, rng.randbytes(n))
        elif k == 4:
            out += msg(T_TXDATA, fbytes(1, rng.randbytes(n))[:-1] if n else b"")
        elif k == 5:
            out += msg(rng.choice([T_RX, T_TX, T_PING, T_RESPONSE, 6, 77, 255]), rng.randbytes(n))
        elif k == 6:
            out += msg(T_TXDATA, rng.randbytes(n), version=rng.choice([1, 7, 255]))
        elif k == 7:
            out += msg(T_TXDATA, bytes(32769))
        elif k == 8:
            out += msg(rng.choice([T_TXDATA, T_PING]), rng.randbytes(50), length=rng.choice([51, 32769, 1 << 31, (1 << 32) - 1]))
        elif k == 9:
            out += mutate(rng, tx_data(rng.randbytes(30)))
        elif k == 10:
            out += rng.randbytes(rng.randrange(1, 30))
        else:
            out += msg(T_SHUTDOWN, rng.randbytes(rng.choice([0, 0, 3])))
    return out


def end(cl, rng):
    k = rng.randrange(4)
    try:
        if k == 0:
            cl.close(abort=True)
        elif k == 1:
            cl.s.shutdown(socket.SHUT_WR)
        elif k == 2:
            cl.shutdown_session()
    except OSError:
        pass


def one(c, srv, rng, hist, idle_ok):
    """one hostile client"""
    what = rng.random()
    cl = srv.client(timeout=20)
    try:
        if what < 0.12:
            b = rng.randbytes(rng.randrange(0, 40))
            if rng.random() < 0.7 and b:
                b = b"\0" + b[1:]
            hist.append(("garbage", b.hex()))
            cl.send(b)
            # a prefix of a message would be waited for until the read timeout
            if not idle_ok:
                cl.s.shutdown(socket.SHUT_WR)
        else:
            rx = rng.random() < (0.5 if srv.conf["rx_sdr_type"] != "none" else 0)
            b = request(rng, srv, rx)
            hist.append(("rx" if rx else "tx", b[:400].hex()))
            cuts = sorted(rng.randrange(len(b) + 1) for _ in range(rng.choice([0, 0, 0, 1, 3])))
            early = rng.random() < 0.1
            cl.send_parts(b, cuts, 0.001 if cuts else 0)
            if early:
                end(cl, rng)
                return
            complete = len(b) >= 6 and struct.unpack(">I", b[2:6])[0] <= len(b) - 6
            if not complete and not idle_ok:
                cl.s.shutdown(socket.SHUT_WR)
            try:
                h = cl.recv_exact(6)
                r = parse_response(cl.recv_exact(struct.unpack(">I", h[2:])[0] & 63))
            except Gone:
                r = None
            hist[-1] += (str(r),)
            c.add("refused" if r and r[0] == FAIL else "disconnected" if r is None else "established")
            if r and r[0] == OK and b[:2] in (b"\0\0", b"\0\5"):
                for _ in range(rng.randrange(0, 5)):
                    s = in_session(rng)
                    hist.append(("session", s[:300].hex()))
                    if rng.random() < 0.3:
                        s = s[:rng.randrange(len(s) + 1)]
                    cl.send(s)
                    c.add("session_streams")
                    if rng.random() < 0.5:
                        cl.s.settimeout(0.05)
                        try:
                            cl.s.recv(1 << 16)
                        except OSError:
                            pass
        end(cl, rng)
    except (Gone, OSError):
        pass
    finally:
        cl.close()


class Bystanders:
    """sessions established before: what they get is checked byte by byte"""
    def __init__(self, c, srv, up, seed, rounds, rx, tx):
        self.c, self.srv, self.rng = c, srv, random.Random(seed)
        self.rx = self.tx = None
        self.sent = 0
        if rx:
            self.req = dict(center=437525000, fs=48000, baud=9600, dec=1, fsk=dict(dev=2400, tw=2000, dc=True))
            self.sig = ref_signal(c, seed, 4096 * rounds // 5 + 1, 5, 48000, 2400, 0.1)
            self.data = readf(self.sig)[:4096 * 8 * rounds]
            cl = srv.client(timeout=30)
            r = cl.open(T_RX, rx_body(**self.req))
            if r[0] != OK:
                raise CheckError("bystander refused: %s" % (r,))
            self.rx, self.rd, self.up = cl, Reader(cl), up.wait_conn(0)
        if tx:
            self.treq = dict(fs=48000, baud=9600, fsk=dict(dev=3000), file=dict(filename=srv.dir + "/steady"))
            cl = srv.client(timeout=30)
            r = cl.open(T_TX, tx_body(**self.treq))
            if r[0] != OK:
                raise CheckError("bystander refused: %s" % (r,))
            self.tx, self.tdata = cl, b""

    def step(self):
        """-> None or what is wrong"""
        try:
            if self.rx:
                self.up.send(self.data[self.sent:self.sent + 4096 * 8])
                self.sent += 4096 * 8
                need = int(self.sent / 8 / 5) - 64
                if not self.rd.wait_len(need, 30):
                    return "receive session got %d bytes instead of about %d%s" % (len(self.rd.data), need, ", and was closed" if self.rd.ended else "")
            if self.tx:
                b = self.rng.randbytes(self.rng.randrange(1, 200))
                self.tx.send(tx_data(b))
                self.tdata += b
                r = self.tx.response()
                if r != (OK, 0):
                    return "transmit session was answered with %s" % (r,)
            self.c.add("bystander_steps")
        except (Gone, Quiet, ValueError, OSError) as e:
            return repr(e)

    def final(self):
        if self.rx:
            p = tmp(self.c, ".cf32")
            with open(p, "wb") as f:
                f.write(self.data[:self.sent])
            want = ref_demod(self.c, p, self.req)
            os.unlink(p)
            self.rd.wait_len(len(want), 20)
            if bytes(self.rd.data) != want:
                return "receive session: " + diff_text(bytes(self.rd.data), want)
        if self.tx:
            want, got = ref_mod(self.c, self.tdata, self.treq), readf(self.srv.dir + "/steady")
            if got != want:
                return "transmit session: " + diff_text(got, want, 8)


def fresh(c, srv, up, seed):
    """new sessions work normally"""
    rng = random.Random(seed)
    pluto = srv.conf["tx_sdr_type"] == "plutosdr"
    if srv.ping() != (OK, 0):
        return "ping"
    path = srv.dir + "/last"
    req = dict(fs=1000000, baud=100000, fsk=dict(dev=50000)) if pluto else dict(fs=48000, baud=9600, fsk=dict(dev=3000), file=dict(filename=path))
    cl, r = open_device(srv, T_TX, tx_body(**req))
    if r[0] != OK:
        return "new transmit session answered with %s" % (r,)
    base = os.path.getsize(srv.iio + "/tx") if pluto and os.path.exists(srv.iio + "/tx") else 0
    b = rng.randbytes(300)
    cl.send(tx_data(b))
    r = cl.response()
    if r != (OK, 0):
        return "transmit message of a new session answered with %s" % (r,)
    want = ref_mod(c, b, req)
    if pluto:
        d = compare(c, "near16", readf(srv.iio + "/tx")[base:], want, 1)
    else:
        got = readf(path)
        d = None if got == want else diff_text(got, want, 8)
    if d:
        return "new transmit session: " + d
    cl.close()
    req = dict(fs=48000, baud=9600, dec=1, center=145000000, fsk=dict(dev=2400, tw=2000, dc=True))
    sig = ref_signal(c, seed, 1000, 5, 48000, 2400, 0.1)
    if srv.conf["rx_sdr_type"] == "file":
        req["file"] = dict(filename=sig)
    elif pluto:
        req.update(fs=1000000, baud=100000, fsk=dict(dev=50000, tw=100000, dc=True))
    n = len(up.conns) if up else 0
    cl, r = open_device(srv, T_RX, rx_body(**req))
    if r[0] != OK:
        return "new receive session answered with %s" % (r,)
    rd = Reader(cl)
    if pluto:
        return None if rd.wait_len(1, 20) else "new receive session got nothing"
    want = ref_demod(c, sig, req)
    if up:
        cn = up.wait_conn(n)
        if cn is None:
            return "no upstream connection for a new receive session"
        cn.send(readf(sig))
    rd.wait_len(len(want), 20)
    d = None if bytes(rd.data) == want else diff_text(bytes(rd.data), want)
    rd.stopped = True
    cl.close()
    return "new receive session: " + d if d else None


def job(c, j):
    seed, kind, rounds = j
    rng = random.Random(seed)
    rx = "file" if kind == "file" else "plutosdr" if kind == "pluto" else "sdr-server"
    tx = "plutosdr" if kind == "pluto" else "file"
    srv = Server(c, iio=kind == "pluto", rx_sdr_type=rx, tx_sdr_type=tx, buffer_size=rng.choice([64, 4096]) if kind in ("file", "tx") else 4096, read_timeout_seconds=2, queue_size=1024)
    if kind == "pluto":
        with open(srv.iio + "/rx", "wb") as f:
            f.write(rng.randbytes(4000))
    ref = ref_signal(c, seed, 3000, 5, 48000, 2400, 0.1)
    os.rename(ref, srv.dir + "/in.cf32")
    up = None
    noise = rng.randbytes(8 * 3000)
    if rx == "sdr-server":
        def script(cn):
            r = cn.read_request()
            if r is None:
                return
            cn.respond()
            cn.watch()
            up.register(cn)
            if r[0] != 437525000 and r[0] != 145000000:
                cn.send(noise)
        up = Upstream(srv.conf["rx_sdr_server_address"], srv.conf["rx_sdr_server_port"], script)
    hist = []
    def viol(key, det):
        c.violation("%s:%s" % (key, kind), "%s; last streams %s" % (det, hist[-6:]), {"seed": seed, "history": hist[-40:], "conf": srv.conf})
    try:
        by = Bystanders(c, srv, up, seed, rounds + 2, up is not None, kind in ("sdr", "file"))
        for r in range(rounds):
            w = by.step()
            if w:
                viol("disturbed", "established session: %s" % w)
                break
            if r % 4 == 3:
                # at the same time
                hs = [[] for _ in range(4)]
                ts = [threading.Thread(target=lambda i: one(c, srv, random.Random(seed * 1000 + r * 10 + i), hs[i], False), args=(i,)) for i in range(4)]
                [t.start() for t in ts]
                [t.join(60) for t in ts]
                for h in hs:
                    hist += h
                c.count(4, 4)
            else:
                for i in range(quick(5, 8)):
                    # few of them, because they keep the acceptor waiting until the timeout, as they may
                    one(c, srv, rng, hist, idle_ok=rng.random() < 0.015)
                    c.count(1, 1)
                    if not srv.alive():
                        break
            if not srv.alive():
                break
            t = time.time()
            p = srv.ping()
            c.cov["slowest_ping_ms"] = max(c.cov.get("slowest_ping_ms", 0), int((time.time() - t) * 1000))
            if p != (OK, 0):
                viol("ping", "ping answered with %s" % (p,))
                break
        if srv.alive() and not c.viol:
            w = by.step() or by.final()
            if w:
                viol("disturbed", "established session: %s" % w)
            if by.tx:
                by.tx.close()
            w = fresh(c, srv, up, seed)
            if w:
                viol("not-serving", w)
    except (Gone, Quiet, ValueError, OSError) as e:
        viol("not-serving", repr(e))
    if up:
        up.stop()
    rc, dt, _ = finish_server(c, srv, kind, timeout=90)
    c.cov["slowest_stop_ms"] = max(c.cov.get("slowest_stop_ms", 0), int(dt * 1000))
    if rc is None:
        viol("wedged", "all clients have left, but the server can't end: something is stuck")


def dripping(c, seed):
    """clients that never finish their request don't keep the others out"""
    rt = 1
    rng = random.Random(seed)
    srv = Server(c, rx_sdr_type="file", tx_sdr_type="file", read_timeout_seconds=rt)
    try:
        for i in range(quick(6, 24)):
            t = (T_RX, T_TX, T_RX, T_TX, T_PING, 9)[i % 6]
            n = rng.choice([32768, 20000, 3000])
            body = (tx_body(file=dict(filename=srv.dir + "/drip")) if t == T_TX else rx_body(file=dict(filename="none"))) + b"\xc2\x0c\xff\xff\x01" + bytes(n)
            m = struct.pack(">BBI", 0, t, n) + body
            cl, done = srv.client(timeout=30), threading.Event()
            def drip():
                try:
                    for x in m:
                        cl.send(bytes([x]))
                        if done.wait(rt * 0.1):
                            return
                except OSError:
                    pass
            th = threading.Thread(target=drip, daemon=True)
            th.start()
            time.sleep(rt * 0.5)
            t0 = time.time()
            try:
                r = srv.ping()
            except (Gone, Quiet, ValueError, OSError) as e:
                r = repr(e)
            took = time.time() - t0
            c.cov["longest_wait_behind_dripping_ms"] = max(c.cov.get("longest_wait_behind_dripping_ms", 0), int(took * 1000))
            done.set(); th.join(10); cl.close(abort=i % 2 == 0)
            if r != (OK, 0) or took > 20:
                c.violation("kept-out:drip", "a client sends its request (type %d, %d bytes) byte by byte; read timeout %d s; another client waits for %.1f s: %s" % (t, n, rt, took, r))
                break
            c.count(1, 1)
            c.add("dripping_requests")
    except (Gone, Quiet, ValueError, OSError) as e:
        c.violation("kept-out:drip", repr(e))
    finish_server(c, srv, "drip", timeout=90)


def main(c):
    c.cov["rule"] = "one hostile client (opening bytes, fragments, bytes inside the session, way of leaving) per evaluation against the instrumented server; established sessions and new sessions verified byte by byte"
    build_server(c); build_ref(c); build_iio(c)
    jobs = []
    for r in range(quick(2, 12)):
        for i, k in enumerate(["sdr", "tx", "file", "pluto", "sdr", "tx"]):
            jobs.append((SEED * 10000 + r * 10 + i, k, quick(36, 200)))
    parallel(lambda f: f(), [lambda: dripping(c, SEED)] + [lambda j=j: job(c, j) for j in jobs])
    c.sample("transmit request with tx_sampling_freq 18446744073709551615, TLE of two lines, cut in three fragments, reset; inside a session: TX_DATA of 32769 bytes, PING announcing 4294967295 bytes, FIN")


run_check(main, "S02")
