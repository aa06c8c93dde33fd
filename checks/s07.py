import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

BS = 256
SHUT = b"\0\1"
SIG = {}


def families(rng):
    """tunings that differ in a single field, and in ways that could be confused with each other"""
    k = rng.randrange(5)
    if k == 0:
        return [(437525000, 0, 48000), (437525000, 1000, 48000), (437526000, 0, 48000), (437525000, 0, 96000), (437525000, -1000, 48000)]
    if k == 1:     # the same tuned frequency
        return [(437525000, 5000, 48000), (437530000, 0, 48000), (437520000, 10000, 48000), (437535000, -5000, 48000)]
    if k == 2:     # limits of the 32-bit fields
        return [(4294967295, 0, 48000), (4294967295, -1, 48000), (1, 4294967294, 48000), (2147483648, -2147483647, 48000), (2147483648, 2147483647, 48000)]
    if k == 3:     # rates
        return [(145825000, -12000, 48000), (145825000, -12000, 48001), (145825000, -12000, 2400000), (145825000, -12000, rng.choice([3000000000, 2400001])), (145825000, -12000, 4294967295), (145825000, -12000, 4294967294)]
    b = rng.randrange(1, 2 ** 31)
    return [(b, 0, 48000), (b + 1, 0, 48000), (b + 1, -1, 48000), (b ^ 65536, 0, 48000), (b, 65536, 48000)]


def body(rng, t, **kw):
    fs = t[2]
    baud = fs // rng.choice([5, 8, 10])
    p = dict(center=t[0], offset=t[1], fs=fs, baud=baud, dec=rng.choice([1, 1, 2]), dest=1, fsk=dict(dev=fs // rng.choice([10, 16, -10]), tw=fs // 16, dc=rng.random() < 0.5))
    p.update(kw)
    return rx_body(**p)


class Model:
    def __init__(self, c, srv, up, seed):
        self.c, self.srv, self.up, self.seed, self.rng = c, srv, up, seed, random.Random(seed)
        self.users = {}            # tuning -> clients
        self.conn = {}             # tuning -> upstream connection
        self.n = 0                 # connections seen
        self.log = []
        self.bad = False

    def viol(self, key, det):
        self.bad = True
        self.c.violation(key, "%s; history %s" % (det, self.log[-25:]), {"seed": self.seed, "history": self.log, "conf": self.srv.conf})

    def want(self, t):
        return (t[0] + t[1], t[2], t[0], 1)

    def join(self, t, valid=True):
        self.log.append("join %s%s" % (t, "" if valid else " (invalid)"))
        kw = {} if valid else self.rng.choice([dict(doppler=dict(DOPPLER, tle=[TLE[0], TLE[2], TLE[1]])), dict(dest=9), dict(baud=4294967295 if t[2] < 4000000000 else 0)])
        try:
            cl = self.srv.client(timeout=20)
            r = cl.open(T_RX, body(self.rng, t, **kw))
        except (Gone, Quiet, ValueError, OSError) as e:
            return self.viol("open", repr(e))
        if not valid:
            if r[0] == OK:
                self.viol("open", "invalid request accepted")
            cl.close()
            return
        if r[0] != OK:
            return self.viol("open", "valid request answered with %s" % (r,))
        rd = Reader(cl)
        cl.rd = rd
        self.users.setdefault(t, []).append(cl)
        if t not in self.conn:
            cn = self.up.wait_conn(self.n, 10)
            if cn is None:
                return self.viol("no-connection", "no upstream connection for a new tuning %s" % (t,))
            self.n += 1
            self.conn[t] = cn
            if cn.request != self.want(t):
                self.viol("wrong-request", "requested (tuned, rate, band, destination) %s instead of %s" % (cn.request, self.want(t)))
            if cn.header != (0, 0):
                self.viol("wrong-request", "header %s" % (cn.header,))
        self.extra()

    def extra(self):
        if len(self.up.conns) > self.n:
            cn = self.up.conns[self.n]
            self.viol("not-shared", "an additional upstream connection %s although the tuning is used already" % (cn.request,))

    def leave(self, t, cl, how):
        self.log.append("leave %s %s" % (t, how))
        try:
            if how in ("shutdown", "shutdown-fin"):
                cl.shutdown_session()
            if how == "half":
                cl.send(b"\0\1\0")
            if how == "half" or how == "shutdown-fin" or how == "fin":
                cl.s.shutdown(socket.SHUT_WR)
            if how == "rst":
                cl.close(abort=True)
        except OSError:
            pass
        if how != "rst":
            if not cl.rd.wait_end(20):
                self.viol("not-closed", "the session didn't end")
            cl.close()
        cl.rd.stopped = True
        self.users[t].remove(cl)
        if not self.users[t]:
            del self.users[t]
            cn = self.conn.pop(t)
            if not cn.done.wait(self.srv.conf["read_timeout_seconds"] * 2 + 10):
                self.viol("left-open", "the connection of %s stays open although nobody uses it" % (t,))
            elif cn.extra != SHUT:
                self.viol("shutdown-message", "the connection of %s ended with %r instead of the shutdown message" % (t, cn.extra))
            self.c.add("upstream_closed")

    def check_alive(self):
        """every connection in use delivers its data to all of its clients"""
        before = {}
        for t, us in self.users.items():
            for u in us:
                before[u] = len(u.rd.data)
        if not self.conn:
            return
        t = self.rng.choice(list(self.conn))
        cn = self.conn[t]
        if cn.done.is_set():
            return self.viol("closed-early", "the connection of %s was closed (%r) although %d clients use it" % (t, cn.extra, len(self.users[t])))
        # a client is attached right after its response, the first buffers may precede it
        for attempt in range(15):
            try:
                cn.send(SIG["data"][:BS * 8 * 4])
            except OSError as e:
                return self.viol("closed-early", "the connection of %s is broken: %r" % (t, e))
            if all(u.rd.wait_len(before[u] + 1, 1 + attempt * 0.2) for u in self.users[t]):
                break
        else:
            return self.viol("no-data", "a client of %s received nothing of what its upstream connection delivered" % (t,))
        self.c.add("deliveries")


def sequential(c, seed):
    rng = random.Random(seed)
    srv = Server(c, rx_sdr_type="sdr-server", buffer_size=BS, queue_size=200, read_timeout_seconds=1)
    up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"], close_on_shutdown=rng.random() < 0.7)
    if rng.random() < 0.4:
        srv.ctl.delays(80, 500, seed=seed)
    m = Model(c, srv, up, seed)
    fam = families(rng)
    for step in range(quick(24, 60)):
        k = rng.random()
        if k < 0.5 and sum(map(len, m.users.values())) < 8:
            m.join(rng.choice(fam[:4] if rng.random() < 0.8 else fam))
        elif k < 0.6:
            m.join(rng.choice(fam), valid=False)
        elif m.users:
            t = rng.choice(list(m.users))
            m.leave(t, rng.choice(m.users[t]), rng.choice(["shutdown", "fin", "rst", "half", "shutdown-fin"]))
        m.extra()
        c.count(1, 1)
        if m.bad or not srv.alive():
            break
        m.check_alive()
    for t in list(m.users):
        for cl in list(m.users[t]):
            if not m.bad:
                m.leave(t, cl, rng.choice(["shutdown", "fin", "rst"]))
    if not m.bad:
        time.sleep(0.1)
        m.extra()
    c.add("connections", len(up.conns))
    up.stop()
    finish_server(c, srv, "sharing")


def concurrent(c, seed):
    """clients joining and leaving at the same time: never a user without a connection, in the end one connection per tuning in use"""
    rng = random.Random(seed)
    srv = Server(c, rx_sdr_type="sdr-server", buffer_size=BS, queue_size=200, read_timeout_seconds=1)
    up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"])
    srv.ctl.delays(250, 2000, seed=seed)
    fam = families(rng)[:3]
    keep, lock, bad = [], threading.Lock(), []
    steady = fam[0]
    cl0 = srv.client(timeout=20)
    r = cl0.open(T_RX, body(rng, steady))
    cl0.rd = Reader(cl0)
    def run(k):
        r2 = random.Random(seed * 10 + k)
        for i in range(quick(8, 30)):
            t = r2.choice(fam)
            try:
                cl = srv.client(timeout=30)
                r = cl.open(T_RX, body(r2, t))
            except (Gone, Quiet, ValueError, OSError) as e:
                bad.append(repr(e))
                return
            if r[0] != OK:
                bad.append("%s" % (r,))
                return
            if r2.random() < 0.2:
                cl.rd = Reader(cl)
                with lock:
                    keep.append((t, cl))
                continue
            time.sleep(r2.random() * 0.02)
            try:
                if r2.random() < 0.5:
                    cl.shutdown_session()
                cl.close(abort=r2.random() < 0.3)
            except OSError:
                pass
        c.count(i + 1, i + 1)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(5)]
    [t.start() for t in ts]
    [t.join(120) for t in ts]
    rep = {"seed": seed, "conf": srv.conf}
    if bad:
        c.violation("open:concurrent", str(bad[:3]), rep)
    want = {steady}
    for t, _ in keep:
        want.add(t)
    w = {(t[0] + t[1], t[2], t[0], 1): t for t in fam}
    def live():
        out = {}
        for cn in list(up.conns):
            if not cn.done.is_set():
                out.setdefault(w.get(cn.request, cn.request), []).append(cn)
        return out
    wait_for(lambda: {k: len(v) for k, v in live().items()} == {t: 1 for t in want}, 20)
    lv = live()
    if {k: len(v) for k, v in lv.items()} != {t: 1 for t in want}:
        c.violation("connections:concurrent", "open upstream connections %s; tunings in use %s" % ({k: len(v) for k, v in lv.items()}, want), rep)
    n0 = [cn for cn in up.conns if w.get(cn.request) == steady]
    if len(n0) != 1:
        c.violation("not-shared:concurrent", "%d connections for a tuning that was used all the time" % len(n0), rep)
    for cn in up.conns:
        if cn.done.is_set() and cn.extra != SHUT:
            c.violation("shutdown-message:concurrent", "the connection ended with %r" % cn.extra, rep)
    # everybody who is still there gets data
    for t, cl in keep + [(steady, cl0)]:
        if t in lv and len(lv[t]) == 1:
            n = len(cl.rd.data)
            for attempt in range(15):
                try:
                    lv[t][0].send(SIG["data"][:BS * 8 * 4])
                except OSError:
                    pass
                if cl.rd.wait_len(n + 1, 1 + attempt * 0.2):
                    break
            else:
                c.violation("no-data:concurrent", "a client of %s receives nothing" % (t,), rep)
            c.add("deliveries")
    for t, cl in keep + [(steady, cl0)]:
        cl.close()
    wait_for(lambda: not live(), 20)
    if live():
        c.violation("left-open:concurrent", "%d connections stay open although nobody uses them" % len(live()), rep)
    for cn in up.conns:
        if cn.done.is_set() and cn.extra != SHUT:
            c.violation("shutdown-message:concurrent", "the connection ended with %r" % cn.extra, rep)
    c.add("connections", len(up.conns))
    up.stop()
    finish_server(c, srv, "concurrent")


def main(c):
    c.cov["rule"] = "one join or leave per evaluation against a model of the connections that should exist; requests, shutdown messages and delivery observed by the upstream server"
    build_server(c); build_ref(c)
    SIG["data"] = readf(ref_signal(c, SEED, 400, 8, 48000, 3000))
    fs = [lambda s=s: sequential(c, s) for s in range(SEED * 100, SEED * 100 + quick(24, 80))]
    fs += [lambda s=s: concurrent(c, s) for s in range(SEED * 100 + 80, SEED * 100 + 80 + quick(6, 20))]
    parallel(lambda f: f(), fs, 12)
    c.sample("join (437525000, 5000, 48000); join (437530000, 0, 48000) -> second connection although the tuned frequency is the same; leave rst -> shutdown message")


run_check(main, "S07")
