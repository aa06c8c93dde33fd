"""Kinds of sessions a client can have with the server, by their outcome."""
from srv import *

RT = 1
PLTX = dict(fs=1000000, baud=100000, fsk=dict(dev=50000))
PLRX = dict(fs=1000000, baud=100000, dec=1, fsk=dict(dev=50000, tw=100000, dc=True))
RXP = dict(fs=48000, baud=9600, dec=1, fsk=dict(dev=2400, tw=2000, dc=True))
TXP = dict(fs=48000, baud=9600, fsk=dict(dev=3000))
BAD_TLE = dict(DOPPLER, tle=[TLE[0], TLE[2], TLE[1]])


class World:
    def __init__(self, c, seed, kind, **server):
        self.c, self.seed, self.rng, self.kind = c, seed, random.Random(seed), kind
        rx = {"sdr": "sdr-server", "file": "file", "pluto": "plutosdr"}[kind]
        self.srv = Server(c, kind=server.pop("san", "asan"), iio=kind == "pluto", rx_sdr_type=rx, tx_sdr_type="plutosdr" if kind == "pluto" else "file", buffer_size=1024, read_timeout_seconds=RT, queue_size=8, **server)
        srv = self.srv
        self.sig = ref_signal(c, seed, 1500, 5, 48000, 2400, 0.1)
        self.data = readf(self.sig)
        if kind == "pluto":
            with open(srv.iio + "/rx", "wb") as f:
                f.write(self.rng.randbytes(8000))
        self.up = Upstream(srv.conf["rx_sdr_server_address"], srv.conf["rx_sdr_server_port"], self.script, sndbuf=65536) if kind == "sdr" else None
        big = srv.dir + "/big.cf32"
        with open(big, "wb") as f:
            f.write(self.data)
            f.truncate(1 << 32)
        self.big = big
        self.n = 0
        self.lock = threading.Lock()

    def script(self, cn):
        r = cn.read_request()
        if r is None:
            return
        k = r[2] // 1000000
        if k == 501:
            cn.respond(1, 3)
            cn.watch()
            return
        if k == 502:
            return cn.close()
        if k == 503:
            cn.watch()         # never answers
            return
        if k == 504:
            cn.respond(raw=b"\7\7garbage")
            cn.watch()
            return
        if k == 505:
            cn.respond(raw=b"\0\2\0")
            return cn.close()
        cn.respond()
        cn.watch()
        try:
            cn.send(self.data)
            if k == 510:
                time.sleep(0.05)
                cn.close()
            if k == 511:
                while not cn.done.is_set():
                    cn.send(self.data)
        except OSError:
            pass

    def rxkw(self, **kw):
        with self.lock:
            self.n += 1
            n = self.n
        d = dict(RXP)
        if self.kind == "file":
            d["file"] = dict(filename=self.sig)
        elif self.kind == "pluto":
            d.update(PLRX)
        else:
            d["center"] = 430000000 + 1000 * (n % 900)
        d.update(kw)
        return d

    def txkw(self, **kw):
        d = dict(TXP)
        if self.kind == "pluto":
            d.update(PLTX)
        else:
            d["file"] = dict(filename=self.srv.dir + "/tx")
        d.update(kw)
        return d

    def open(self, t, body, rcvbuf=None):
        cl = self.srv.client(timeout=30, rcvbuf=rcvbuf)
        return cl, cl.open(t, body)

    def leave(self, cl, how):
        try:
            if how == "shutdown":
                cl.shutdown_session()
                cl.read_to_end()
            elif how == "half":
                cl.send(b"\0\4\0")
            elif how == "garbage":
                cl.send(b"\xff" * 50)
        except (OSError, Quiet):
            pass
        cl.close(abort=how == "rst")

    # ---- outcomes of a session
    def o_ping(self):
        self.srv.ping()

    def raw(self, b, abort=False, fin=True):
        cl = self.srv.client(timeout=20)
        try:
            cl.send(b)
            if fin and not abort:
                cl.s.shutdown(socket.SHUT_WR)
            if not abort:
                cl.read_to_end()
        except (OSError, Quiet, Gone):
            pass
        cl.close(abort=abort)

    def o_nothing(self): self.raw(b"")
    def o_nothing_rst(self): self.raw(b"", abort=True)
    def o_header_part(self): self.raw(b"\0\0\0")
    def o_body_part(self): self.raw(msg(T_RX, rx_body(**self.rxkw()))[:-3])
    def o_body_part_tx(self): self.raw(msg(T_TX, tx_body(**self.txkw()))[:-3])
    def o_body_part_rst(self): self.raw(msg(T_TX, tx_body(**self.txkw()))[:-3], abort=True)
    def o_garbage(self): self.raw(b"\0\0\0\0\0\x10" + b"\xff" * 16)
    def o_garbage_tx(self): self.raw(b"\0\5\0\0\0\x10" + b"\xff" * 16)
    def o_oversize(self): self.raw(msg(T_RX, bytes(100), length=1 << 30))
    def o_version(self): self.raw(msg(T_RX, rx_body(**self.rxkw()), version=3))
    def o_type(self): self.raw(msg(T_TXDATA, b"abc"))
    def o_timeout(self): self.raw(msg(T_RX, rx_body(**self.rxkw()))[:-3], fin=False)
    def o_rx_gone(self): self.raw(msg(T_RX, rx_body(**self.rxkw())), abort=True)
    def o_tx_gone(self): self.raw(msg(T_TX, tx_body(**self.txkw())), abort=True)

    def refused(self, t, body):
        cl, r = self.open(t, body)
        if r[0] == OK:
            raise ValueError("request was expected to be refused")
        cl.close()

    def o_rx_invalid(self): self.refused(T_RX, rx_body(**self.rxkw(baud=0)))
    def o_rx_tle(self): self.refused(T_RX, rx_body(**self.rxkw(doppler=BAD_TLE)))
    def o_rx_demod(self): self.refused(T_RX, rx_body(**self.rxkw(baud=4000000000)))
    def o_tx_invalid(self): self.refused(T_TX, tx_body(**self.txkw(baud=0)))
    def o_tx_tle(self): self.refused(T_TX, tx_body(**self.txkw(doppler=BAD_TLE, dump=True)))
    def o_tx_mod(self): self.refused(T_TX, tx_body(**self.txkw(baud=4000000000)))

    def o_tx(self, how="shutdown", **kw):
        cl, r = open_device(self.srv, T_TX, tx_body(**self.txkw(**kw)))
        if r[0] != OK:
            raise ValueError("transmit session refused: %s" % (r,))
        for _ in range(self.rng.randrange(1 if "doppler" in kw else 0, 4)):
            cl.send(tx_data(self.rng.randbytes(self.rng.randrange(1, 3000))))
            cl.response()
        cl.send(msg(T_TXDATA, b"\xff" * 10))
        cl.response()
        self.leave(cl, how)

    def o_tx_rst(self): self.o_tx("rst")
    def o_tx_half(self): self.o_tx("half")
    def o_tx_garbage(self): self.o_tx("garbage")
    def o_tx_fin(self): self.o_tx("fin", dump=True, offset=1000)
    def o_tx_doppler(self): self.o_tx("shutdown", dump=True, doppler=DOPPLER)

    def o_tx_pending(self):
        cl, r = open_device(self.srv, T_TX, tx_body(**self.txkw()))
        for _ in range(5):
            cl.send(tx_data(bytes(2000)))
        cl.close(abort=True)

    def o_tx_not_reading(self):
        self.srv.ctl.set("sndbuf", 2048)
        cl, r = open_device(self.srv, T_TX, tx_body(**self.txkw()))
        self.srv.ctl.set("sndbuf", 0)
        for _ in range(300):
            cl.send(tx_data(b"a"))
        cl.close()

    def o_tx_used(self):
        cl, r = open_device(self.srv, T_TX, tx_body(**self.txkw()))
        c2, r2 = self.open(T_TX, tx_body(**self.txkw(doppler=DOPPLER, dump=True)))
        c2.close()
        self.leave(cl, "shutdown")

    def o_rx(self, how="shutdown", n=1, wait=True, **kw):
        p = self.rxkw(**kw)
        if self.kind == "pluto":
            n = 1
        cls = []
        for i in range(n):
            q = dict(p, dest=self.rng.randrange(3), dump=self.rng.random() < 0.5, doppler=DOPPLER if self.rng.random() < 0.3 else None)
            cl, r = open_device(self.srv, T_RX, rx_body(**q)) if self.kind == "pluto" else self.open(T_RX, rx_body(**q))
            if r[0] != OK:
                raise ValueError("receive session refused: %s" % (r,))
            cls.append(cl)
        if wait:
            time.sleep(self.rng.choice([0, 0.01, 0.05]))
        for cl in cls:
            self.leave(cl, how)

    def o_rx_fin(self): self.o_rx("fin")
    def o_rx_rst(self): self.o_rx("rst", wait=False)
    def o_rx_half(self): self.o_rx("half")
    def o_rx_shared(self): self.o_rx(self.rng.choice(["shutdown", "fin", "rst"]), n=3)

    def o_rx_not_reading(self):
        """asks to end the session, but reads nothing and keeps its connection"""
        kw = dict(dest=self.rng.choice([1, 2]))
        if self.kind == "file":
            kw["file"] = dict(filename=self.big)
        if self.kind == "sdr":
            kw["center"] = 511000000
        self.srv.ctl.set("sndbuf", 2048)
        cl = self.srv.client(timeout=30, rcvbuf=2048)
        r = cl.open(T_RX, rx_body(**self.rxkw(**kw)))
        self.srv.ctl.set("sndbuf", 0)
        if r[0] != OK:
            cl.close()
            if self.kind == "pluto" and r[1] == RX_USED:
                return
            raise ValueError("receive session refused: %s" % (r,))
        time.sleep(0.4)
        cl.shutdown_session()
        self.kept.append(cl)
    kept = []

    def o_file_missing(self):
        if self.kind == "file":
            self.refused(T_RX, rx_body(**self.rxkw(file=dict(filename="/no/such/file"))))
    def o_file_big(self):
        if self.kind == "file":
            self.o_rx(self.rng.choice(["shutdown", "rst"]), file=dict(filename=self.big))
    def o_file_dir(self):
        if self.kind == "file":
            self.o_rx("fin", file=dict(filename=self.srv.dir))
    def o_tx_nofile(self):
        if self.kind != "pluto":
            self.refused(T_TX, tx_body(**self.txkw(file=dict(filename="/no/such/dir/x"), dump=True)))
    def o_tx_full(self):
        if self.kind != "pluto":
            cl, r = open_device(self.srv, T_TX, tx_body(**self.txkw(file=dict(filename="/dev/full"))))
            if r[0] == OK:
                cl.send(tx_data(bytes(500)))
                cl.response()
            cl.close()
    def o_rate_low(self):
        if self.kind == "pluto":
            self.refused(T_RX, rx_body(**self.rxkw(fs=400000, baud=40000)))
            cl, r = open_device(self.srv, T_TX, tx_body(**self.txkw(fs=400000, baud=40000)))
            cl.close()

    def upstream(self, k):
        if self.kind == "sdr":
            self.refused(T_RX, rx_body(**self.rxkw(center=k * 1000000)))
    def o_up_refuses(self): self.upstream(501)
    def o_up_closes(self): self.upstream(502)
    def o_up_silent(self): self.upstream(503)
    def o_up_garbage(self): self.upstream(504)
    def o_up_partial(self): self.upstream(505)
    def o_up_ends(self):
        if self.kind == "sdr":
            cl, r = self.open(T_RX, rx_body(**self.rxkw(center=510000000)))
            cl.s.settimeout(0.3)
            try:
                cl.read_to_end()
            except Quiet:
                pass
            cl.close()
