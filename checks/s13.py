import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *
import math

RT = 1
BS = 1024
PLTX = dict(fs=1000000, baud=100000, fsk=dict(dev=50000))
PLRX = dict(fs=1000000, baud=100000, dec=1, fsk=dict(dev=50000, tw=100000, dc=True))
RXP = dict(fs=48000, baud=9600, dec=1, fsk=dict(dev=2400, tw=2000, dc=True))
TXP = dict(fs=48000, baud=9600, fsk=dict(dev=3000))
SETUP = F_ALLOC | F_THREAD | F_FILE | F_FWRITE | F_SOCKET | F_IIO
LIMIT = 15


class World:
    """a server with other sessions that must not notice the failures"""
    def __init__(self, c, seed, kind):
        self.c, self.seed, self.rng, self.kind = c, seed, random.Random(seed), kind
        rx = {"sdr": "sdr-server", "file": "file", "pluto-rx": "plutosdr", "pluto-tx": "plutosdr"}[kind]
        self.srv = Server(c, leaks=True, iio=kind.startswith("pluto"), rx_sdr_type=rx, tx_sdr_type="plutosdr" if kind.startswith("pluto") else "file",
                          buffer_size=BS, read_timeout_seconds=RT, queue_size=64)
        srv = self.srv
        self.sig = ref_signal(c, seed, BS * 3 // 5 + 100, 5, 48000, 2400, 0.1)
        d = readf(self.sig)[:BS * 3 * 8]
        if len(d) != BS * 3 * 8:
            raise CheckError("signal too short")
        with open(self.sig, "wb") as f:
            f.write(d)
        self.data = d
        if srv.kind and hasattr(srv, "iio"):
            r = self.rng
            with open(srv.iio + "/rx", "wb") as f:
                f.write(b"".join(struct.pack("<hh", r.randrange(-2048, 2048), r.randrange(-2048, 2048)) for _ in range(BS * 3)))
        self.up = Upstream(srv.conf["rx_sdr_server_address"], srv.conf["rx_sdr_server_port"], self.script) if kind == "sdr" else None
        self.n = 0
        self.refs = {}

    def script(self, cn):
        if cn.read_request() is None:
            return
        self.up.register(cn)
        cn.respond()
        cn.watch()

    # ---- bystanders
    def start_bystanders(self, wanted=True):
        srv = self.srv
        self.by_rx = self.by_tx = None
        self.tx_data = b""
        if not wanted:
            return
        if self.kind != "pluto-rx":
            if self.kind == "pluto-tx":
                req = dict(PLRX)
            elif self.kind == "sdr":
                req = dict(RXP, center=440000000)
            else:
                req = dict(RXP, file=dict(filename=self.sig))
            cl = srv.client()
            if cl.open(T_RX, rx_body(**req))[0] != OK:
                raise CheckError("S13: bystander refused")
            self.by_rx, self.by_req, self.by_sent = cl, req, b""
            self.by_rd = Reader(cl)
            if self.kind == "sdr":
                self.by_cn = self.up.wait_conn(0)
        self.tx_data = b""
        if self.kind != "pluto-tx":
            self.by_tx_start()

    def by_tx_start(self):
        req = dict(TXP, file=dict(filename=self.srv.dir + "/by")) if self.kind != "pluto-rx" else dict(PLTX)
        cl, r = open_device(self.srv, T_TX, tx_body(**req))
        if r[0] != OK:
            raise CheckError("S13: bystander refused")
        self.by_tx, self.by_txreq = cl, req

    def by_tx_stop(self):
        self.by_tx_check()
        self.by_tx.shutdown_session(); self.by_tx.read_to_end(); self.by_tx.close()
        self.by_tx = None

    def by_tx_check(self):
        """what the transmitting session has written"""
        if self.kind == "pluto-rx":
            return
        got, want = readf(self.srv.dir + "/by"), ref_mod(self.c, self.tx_data, self.by_txreq)
        if got != want:
            return "transmitted samples: " + diff_text(got, want, 8)

    def bystanders(self):
        """-> None or what is wrong"""
        try:
            if self.by_tx:
                d = self.rng.randbytes(20)
                self.by_tx.send(tx_data(d))
                self.tx_data += d
                r = self.by_tx.response()
                if r != (OK, 0):
                    return "transmit message answered with %s" % (r,)
            if self.by_rx:
                if self.by_rd.ended:
                    return "connection of the receiver closed"
                n = len(self.by_rd.data)
                if self.kind == "sdr":
                    self.by_cn.send(self.data)
                    self.by_sent += self.data
                    # (at least; compared exactly at the end)
                    if not self.by_rd.wait_len(int(len(self.by_sent) / 40 * 0.98) - 30, 10):
                        return "receiver got %d soft bits of %d samples" % (len(self.by_rd.data), len(self.by_sent) // 8)
                elif self.kind == "pluto-tx":
                    if not self.by_rd.wait_len(n + 1, 10):
                        return "receiver gets nothing anymore"
        except (Gone, Quiet, ValueError, OSError) as e:
            return repr(e)
        return None

    def end(self):
        if self.by_tx:
            e = self.by_tx_check()
            if e:
                return e
        if self.by_rx and self.kind in ("sdr", "file"):
            if self.kind == "sdr":
                p = tmp(self.c, ".cf32")
                with open(p, "wb") as f:
                    f.write(self.by_sent)
            else:
                p = self.sig
            want = ref_demod(self.c, p, self.by_req)
            self.by_rd.wait_len(len(want), 10)
            if bytes(self.by_rd.data) != want:
                return "receiver: " + diff_text(bytes(self.by_rd.data), want)
        return None

    # ---- victims: -> (outcome, complete)
    def v_ping(self):
        cl = self.srv.client(timeout=LIMIT)
        try:
            cl.send(msg(T_PING))
            r = cl.response()
            cl.read_to_end()
            return r, r == (OK, 0)
        finally:
            cl.close()

    def rx_req(self, join):
        self.n += 1
        if self.kind == "sdr":
            req = dict(RXP, center=440000000 if join else 450000000 + self.n)
        elif self.kind == "file":
            req = dict(RXP, file=dict(filename=self.sig, start=TLE_START), doppler=DOPPLER)
        else:
            req = dict(PLRX)
        return dict(req, dest=2, dump=True)

    def v_rx(self, join=False):
        srv = self.srv
        req = self.rx_req(join)
        cl = srv.client(timeout=LIMIT)
        try:
            r = cl.open(T_RX, rx_body(**req))
            if r[0] != OK:
                end = cl.read_to_end()
                return (r, False) if not end else (r, None)
            inp, path = self.data, self.sig
            if self.kind == "sdr":
                cn = self.by_cn if join else wait_for(lambda: [x for x in self.up.conns if x.request[2] == req["center"]], 5)
                if not join:
                    cn = cn[0]
                else:
                    # (it receives from the moment it is attached, which is after the response)
                    srv.idle(5, 0.05)
                try:
                    cn.send(inp)
                except OSError:
                    pass
                if join:
                    self.by_sent += inp
            if self.kind.startswith("pluto"):
                path = tmp(self.c, ".cf32")
                raw = array.array("h", readf(srv.iio + "/rx"))
                with open(path, "wb") as f:
                    f.write(array.array("f", [x / 2048.0 for x in raw]).tobytes())
            key = (self.kind,)
            if key not in self.refs:
                self.refs[key] = ref_demod(self.c, path, req)
            want = self.refs[key]
            if path != self.sig:
                os.unlink(path)
            rd = Reader(cl)
            full = rd.wait_len(len(want), LIMIT)
            got = bytes(rd.data)
            if not full and not rd.ended:
                return "%d of %d soft bits, connection still open after %d s" % (len(got), len(want), LIMIT), None
            # (the doppler reference cuts the samples differently: rounding)
            n = min(len(got), len(want))
            if not (near_s8(got[:n], want[:n]) if req.get("doppler") else got[:n] == want[:n]):
                return "other data than the signal: " + diff_text(got, want), None
            if not rd.ended:
                try:
                    cl.shutdown_session()
                except OSError:
                    pass
                if not rd.wait_end(LIMIT):
                    return "connection open %d s after it was asked to end" % LIMIT, None
            if full:
                for k, w in (("sdr2demod", inp if self.kind in ("sdr", "file") else None), ("demod2client", got)):
                    d = srv.dump(k, cl.id)
                    if w is not None and (d is None or d[:len(w)] != w):
                        # the file is completed when the session has ended
                        wait_for(lambda: (srv.dump(k, cl.id) or b"")[:len(w)] == w, 3)
                        d = srv.dump(k, cl.id)
                        if d is None or d[:len(w)] != w:
                            return "output file %s: %s" % (k, "missing" if d is None else diff_text(d, w)), False
            return r, full
        finally:
            cl.close()

    def v_rx_join(self): return self.v_rx(True)

    def v_rx_socket(self):
        """nothing but the connection"""
        return self.v_rx()

    def v_tx(self):
        srv = self.srv
        path = srv.dir + "/victim"
        if os.path.exists(path):
            os.unlink(path)
        if self.kind.startswith("pluto"):
            req = dict(PLTX, dump=True, offset=0)
        else:
            req = dict(TXP, file=dict(filename=path, start=TLE_START), dump=True, offset=500, doppler=DOPPLER)
        cl = srv.client(timeout=LIMIT)
        try:
            r = cl.open(T_TX, tx_body(**req))
            if r[0] != OK:
                return r, False
            base = os.path.getsize(srv.iio + "/tx") if self.kind.startswith("pluto") and os.path.exists(srv.iio + "/tx") else 0
            sent, allok = b"", True
            for i in range(3):
                d = bytes([i * 7 + j & 255 for j in range(60)])
                cl.send(tx_data(d))
                r = cl.response()
                if r == (OK, 0):
                    sent += d
                else:
                    allok = False
            cl.shutdown_session()
            cl.read_to_end()
            if allok:
                if self.kind.startswith("pluto"):
                    want = ref_mod(self.c, sent, req)
                    got = readf(srv.iio + "/tx")[base:]
                    e = compare(self.c, "near16", got, want, 1)
                    if e:
                        return "transmitted samples: " + e, None
                else:
                    if "tx" not in self.refs:
                        self.refs["tx"] = ref_mod(self.c, sent, req)
                    # (rounding of the doppler correction depends on how the samples are cut)
                    e = compare(self.c, "steps", readf(path), self.refs["tx"], 2 * math.pi * 80 * 1.35 / 48000 + 2e-5, 32)
                    if e:
                        return "transmitted samples: " + e, None
            return (OK, 0), allok
        finally:
            cl.close()


def level(w):
    srv = w.srv
    fds = [f for f in srv.fds() if not f.endswith("/log") and not re.search(r"/(by|victim)$", f) and not (f.endswith(".cf32") and "mod2sdr" in f)]
    return len(fds), srv.threads()


def job(c, j):
    seed, kind, victim, kinds, start, stride, burst = j
    w = World(c, seed, kind)
    srv = w.srv
    label = "%s:%s%s" % (kind, victim, ":connection" if kinds & F_IO else "")
    def viol(what, det, nth, name):
        c.violation("%s:%s:%s" % (what, label, name or "?"), "operation %d (%s) failed in a session %s: %s" % (nth, name, label, det),
                    {"seed": seed, "nth": nth, "kinds": kinds, "burst": burst})
    fn = getattr(w, "v_" + victim)
    def victim_run():
        """-> (outcome, complete)"""
        try:
            return fn()
        except Gone:
            return "gone", False
        except (Quiet, ValueError) as e:
            return repr(e), None
        except OSError as e:
            return "gone", False
    def normal(when):
        """the session works; -> description of what doesn't"""
        end = time.time() + 15
        while True:
            r, full = victim_run()
            if full:
                return None
            if isinstance(r, tuple) and r[0] == FAIL and r[1] in (TX_USED, RX_USED) and time.time() < end:
                time.sleep(0.02)
                continue
            return "%s (%s): %s" % (when, full, r)
    try:
        w.start_bystanders(not kinds & F_IO)
        if victim == "tx" and w.by_tx:
            w.by_tx_stop()
        b = w.bystanders() or normal("before any failure") or w.bystanders()
        if b:
            if not srv.reports():
                c.violation("normal:" + label, b, {"seed": seed})
            return
        wait_for(lambda: False, 0.3)
        if not w.by_rx and not w.by_tx:
            wait_for(lambda: srv.threads() <= 2, 4 * RT + 10)
        base = level(w)
        # how many operations there are
        srv.ctl.arm(kinds, 1 << 30)
        b = normal("with counting")
        wait_for(lambda: level(w)[1] <= base[1] or not srv.alive(), 4 * RT + 10)
        total = srv.ctl.disarm()[2]
        b = b or w.bystanders()
        if b:
            c.violation("normal:" + label, b, {"seed": seed})
            return
        # every operation; in the quick tier a sample of the many equal ones in the middle
        todo = list(range(1, total + 3))
        if not THOROUGH and total > 110:
            todo = todo[:45] + sorted(w.rng.sample(todo[45:-45], min(quick(50, 0), total - 90))) + todo[-45:]
        todo = todo[start - 1::stride]
        c.add("operations_" + label.replace(":", "_"), total if start == 1 and not burst else 0)
        for nth in todo:
            srv.ctl.arm(kinds, nth, burst)
            r, full = victim_run()
            # the session ends in the background
            wait_for(lambda: level(w)[1] <= base[1] or not srv.alive(), 4 * RT + 10)
            fired, name, seen = srv.ctl.disarm()
            if not fired:
                if not full and srv.alive():
                    # the victim has to be refused for a reason
                    viol("no-reason", "nothing failed, but the session ended with %s" % (r,), nth, "")
                    break
                continue
            c.count(1, 1)
            c.add("failed_" + name)
            if not srv.alive():
                break
            if full is None:
                viol("outcome", r, nth, name)
                break
            if isinstance(r, tuple) and r[0] == FAIL and r[1] not in (INVALID, INTERNAL):
                viol("outcome", "response %s" % (r,), nth, name)
                break
            c.add("outcome_" + ("complete" if full else "failure_response" if isinstance(r, tuple) and r[0] == FAIL else "disconnected" if r == "gone" else "cut_short"))
            b = w.bystanders()
            if b:
                if srv.alive():
                    viol("bystander", b, nth, name)
                break
            b = normal("the next session") or w.bystanders()
            if b:
                if srv.alive():
                    viol("next-session", b, nth, name)
                break
            now = None
            def same():
                nonlocal now
                now = level(w)
                return now[0] <= base[0] and now[1] <= base[1]
            if not wait_for(same, 4 * RT + 5):
                viol("left-behind", "%d descriptors and %d threads, before the failure %d and %d" % (now + base), nth, name)
                break
        else:
            e = w.end()
            if e:
                viol("bystander", e, 0, "any")
    except (Gone, Quiet, ValueError, OSError) as e:
        if srv.alive():
            import traceback
            c.violation("session:" + label, "%r %s" % (e, traceback.format_exc().strip().split("\n")[-3:]), {"seed": seed})
    finally:
        finish_server(c, srv, label)
        if w.up:
            w.up.stop()


def main(c):
    c.cov["rule"] = ("per kind of session: every resource operation the session performs is made to fail once (allocations, threads, files, writes, sockets, device calls), "
                     "then the outcome, the other sessions' data, the next session, descriptors and threads are looked at; LeakSanitizer at the end; distinct = failed operations")
    build_server(c); build_ref(c); build_iio(c)
    jobs = []
    n = 0
    exe = os.path.join(c.work, "h_ctor")
    build(exe, "asan", ["h_ctor.c", "srv_ctl.c"], ldflags=["-Wl,--wrap=" + w for w in WRAPS])
    def ctors(k):
        d = os.path.join(c.work, "ctor%d" % k)
        os.makedirs(d + "/iio")
        run_harness(c, exe, [SEED, k, 8, quick(2, 8), quick(150, 100000), d, free_addr()], quick(150, 3000), leaks=True, label="constructors",
                    env={"FAKE_IIO": d + "/iio", "LD_LIBRARY_PATH": build_iio(c), "SRV_ROOT": c.work}, hang_key="constructors:hang")
    parallel(ctors, range(8))
    plans = [("sdr", "rx", SETUP, 2), ("sdr", "rx_join", SETUP, 2), ("sdr", "ping", SETUP, 1), ("sdr", "tx", SETUP, 2),
             ("file", "rx", SETUP, 2), ("file", "tx", SETUP, 1), ("pluto-rx", "rx", SETUP, 3), ("pluto-tx", "tx", SETUP, 3)]
    plans += [("sdr", "rx", F_IO, 1), ("sdr", "tx", F_IO, 1), ("file", "rx", F_IO, 1), ("pluto-rx", "rx", F_IO, 1), ("sdr", "ping", F_IO, 1), ("pluto-rx", "rx", F_REFILL, 1)]
    for kind, victim, kinds, split in plans:
        for burst in quick((0,), (0, 2, 4)):
            for s in range(split):
                jobs.append((SEED * 1000 + n, kind, victim, kinds, s + 1, split, burst))
                n += 1
    # a device that doesn't come back
    jobs.append((SEED * 1000 + n, "pluto-rx", "rx", F_REFILL, 1, 1, 1 << 30))
    parallel(lambda j: job(c, j), jobs)
    c.sample("the 17th operation (malloc) of a session sharing an upstream connection fails: failure response, the other client's data stay exact")


run_check(main, "S13")
