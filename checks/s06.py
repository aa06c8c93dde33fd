import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

# parameters a client may demodulate a 48 kHz stream with
PARAMS = [dict(baud=9600, dec=1, fsk=dict(dev=2400, tw=2000, dc=False)), dict(baud=4800, dec=2, fsk=dict(dev=5000, tw=2000, dc=True)),
          dict(baud=4800, dec=1, fsk=dict(dev=-5000, tw=3000, dc=True)), dict(baud=1200, dec=4, fsk=dict(dev=600, tw=1000, dc=True)),
          dict(baud=9600, dec=2, fsk=dict(dev=3000, tw=1500, dc=True))]
# centre, offset: all of them are different tunings
TUNINGS = [(437525000, 0), (437525000, 5000), (437520000, 5000), (145825000, -12000)]


def demod_bytes(c, data, req):
    p = tmp(c, ".cf32")
    with open(p, "wb") as f:
        f.write(data)
    try:
        return ref_demod(c, p, req)
    finally:
        os.unlink(p)


def in_order_buffers(part, whole, bs):
    """part consists of whole buffers of the stream, in order (or of its last, shorter one)"""
    pos, i = 0, 0
    while i < len(part):
        j = whole.find(part[i:i + 64], pos)
        if j < 0:
            return i // 8
        n = 0
        step = 1 << 20
        while step >= 8:
            while part[i + n:i + n + step] and part[i + n:i + n + step] == whole[j + n:j + n + step]:
                n += min(step, len(part) - i - n)
            step //= 8
        n = n // 8 * 8
        if n == 0:
            return i // 8
        pos, i = j + n, i + n
    return None


class Streams:
    """the upstream servers: one stream per tuning, continued only when the followed clients have kept up"""
    def __init__(self, c, srv, up, seed, nsym, bs, window):
        self.c, self.srv, self.bs, self.window = c, srv, bs, window
        self.data, self.go, self.follow, self.fail = {}, threading.Event(), {}, []
        self.conns, self.finished = {}, {}
        self.left = threading.Event()
        for i, t in enumerate(TUNINGS):
            self.data[t] = readf(ref_signal(c, seed * 10 + i, nsym, 5, 48000, 2400, 0.1, 100 * i))
            self.finished[t] = threading.Event()
        up.script = self.script

    def script(self, cn):
        req = cn.read_request()
        if req is None:
            return
        t = (req[2], req[0] - req[2])
        cn.respond()
        cn.watch()
        self.conns.setdefault(t, []).append(cn)
        if t not in self.data or req[1] != 48000:
            self.fail.append("unexpected request %s" % (req,))
            return
        if len(self.conns[t]) > 1:
            # somebody joined after the last one had left: the stream starts from the beginning
            pass
        self.go.wait(60)
        data, step = self.data[t], self.bs * 8 * self.window
        try:
            p = 0
            while p < len(data):
                cn.s.sendall(data[p:p + step])
                p += step
                # closed loop: the followed clients have to keep up
                for rd, total in self.follow.get(t, []):
                    need = int(total * (min(p, len(data)) // (8 * self.bs) * self.bs) / (len(data) // 8)) - 64
                    if need > 0 and not rd.wait_len(need, 30):
                        self.fail.append("steady client of %s received only %d bytes of %d after 30 s" % (t, len(rd.data), need))
                        return
        except OSError:
            return
        finally:
            self.finished[t].set()


def new_client(c, srv, t, prm, dest, dump=True, rcvbuf=None):
    cl = srv.client(timeout=30, rcvbuf=rcvbuf)
    req = dict(prm, center=t[0], offset=t[1], dest=dest, dump=dump)
    r = cl.open(T_RX, rx_body(**req))
    cl.req, cl.t = req, t
    return cl, r


def check_own(c, srv, st, cl, got, label, contiguous=True, wait=3):
    """files and socket of a client that has left: its dump is a part of its stream, its output the demodulation of the dump"""
    def viol(key, det):
        c.violation(key, "%s, tuning %s, %s: %s" % (label, cl.t, cl.req, det), {"conf": srv.conf})
    def stable():
        a = (len(srv.dump("sdr2demod", cl.id) or b""), len(srv.dump("demod2client", cl.id) or b""))
        time.sleep(0.05)
        return a == (len(srv.dump("sdr2demod", cl.id) or b""), len(srv.dump("demod2client", cl.id) or b""))
    wait_for(stable, wait)
    d = srv.dump("sdr2demod", cl.id)
    f = srv.dump("demod2client", cl.id) if cl.req["dest"] != 1 else None
    if d is None:
        return viol("dump-missing:%s" % label, "no dump")
    whole = st.data[cl.t]
    if contiguous:
        if d and whole.find(d) % 8:
            i = in_order_buffers(d, whole, st.bs)
            viol("foreign-input:%s" % label, "%d dumped samples are not a continuous part of the stream (gap or foreign data at %s)" % (len(d) // 8, i))
    else:
        i = in_order_buffers(d, whole, st.bs)
        if i is not None:
            viol("foreign-input:%s" % label, "sample %s of %d of the dump is not from the client's stream, or out of order" % (i, len(d) // 8))
    want = demod_bytes(c, d, cl.req)
    if cl.req["dest"] == 0 and got is not None:
        if got:
            viol("foreign-output:%s" % label, "%d bytes on the socket of a client that only asked for a file" % len(got))
        got = None
    for where, o, exact in (("file", f, True), ("socket", got, got is not None)):
        if o is None:
            continue
        if (o != want) if exact else (o != want[:len(o)]):
            viol("foreign-output:%s" % label, "%s: not the demodulation of the client's own input: %s" % (where, diff_text(o, want)))
        c.add("bytes_checked", len(o))
    c.count(1, 1)
    c.add("clients_" + label)
    return len(d)


def churn(c, seed):
    rng = random.Random(seed)
    bs = rng.choice([256, 1024, 3000])
    srv = Server(c, rx_sdr_type="sdr-server", buffer_size=bs, queue_size=2000, read_timeout_seconds=2)
    up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"])
    if seed % 2:
        srv.ctl.delays(60, 400, seed=seed)
    st = Streams(c, srv, up, seed, quick(16000, 40000), bs, 2)
    steady = []
    tun = TUNINGS[:3]
    for t in tun:
        for k in range(2):
            prm = rng.choice(PARAMS[:3])
            cl, r = new_client(c, srv, t, prm, 1 if k == 0 else 2)
            if r[0] != OK:
                c.violation("open:steady", "valid request answered with %s" % (r,))
                return
            rd = Reader(cl)
            total = len(demod_bytes(c, st.data[t], cl.req))
            st.follow.setdefault(t, []).append((rd, total))
            steady.append((cl, rd, total))
    stop = threading.Event()
    left = []
    def churner(k):
        r2 = random.Random(seed * 100 + k)
        while not stop.is_set():
            t = r2.choice(tun)
            try:
                cl, r = new_client(c, srv, t, r2.choice(PARAMS), r2.choice([0, 2, 2, 1]))
            except (Gone, Quiet, ValueError, OSError) as e:
                if srv.alive():
                    c.violation("open:churn", "valid request: %r" % e)
                return
            if r[0] != OK:
                c.violation("open:churn", "valid request answered with %s" % (r,))
                return
            how = r2.choice(["shutdown", "fin", "rst", "read-shutdown", "read-shutdown"])
            got = None
            if how == "read-shutdown":
                rd = Reader(cl)
                time.sleep(r2.random() * 0.2)
                cl.shutdown_session()
                if not rd.wait_end(20):
                    c.violation("not-closed:churn", "shutdown message did not end the session")
                got = bytes(rd.data)
            else:
                time.sleep(r2.choice([0, 0.002, 0.05, 0.1]) * r2.random())
                try:
                    if how == "shutdown":
                        cl.shutdown_session()
                    cl.close(abort=how == "rst")
                except OSError:
                    pass
            left.append((cl, got, how))
            cl.close()
    ts = [threading.Thread(target=churner, args=(k,)) for k in range(4)]
    [x.start() for x in ts]
    time.sleep(0.05)
    st.go.set()
    for t in tun:
        st.finished[t].wait(120)
    stop.set()
    [x.join(60) for x in ts]
    for cl, rd, total in steady:
        ok = rd.wait_len(total, 20)
        try:
            cl.shutdown_session()
        except OSError:
            pass
        rd.wait_end(20)
        if st.fail or not ok:
            c.violation("steady-incomplete", "%s; %d of %d bytes" % (st.fail[:2], len(rd.data), total), {"conf": srv.conf, "seed": seed})
        n = check_own(c, srv, st, cl, bytes(rd.data), "steady")
        if n is not None and n != len(st.data[cl.t]):
            c.violation("steady-lost", "a client that was there from the beginning got %d samples of %d" % (n // 8, len(st.data[cl.t]) // 8), {"seed": seed})
        cl.close()
    # what the leavers left behind is their own (a reset connection may have lost the end)
    srv.idle(15)
    for cl, got, how in left[:quick(60, 400)]:
        check_own(c, srv, st, cl, got if how == "read-shutdown" else None, "leaver", wait=1)
    for t in tun:
        n = len(st.conns.get(t, []))
        if n != 1:
            c.violation("upstream-dropped", "the tuning %s was used all the time, but the server connected %d times" % (t, n), {"seed": seed})
    c.add("churn_joins", len(left))
    up.stop()
    finish_server(c, srv, "churn")


def stall(c, seed):
    rng = random.Random(seed)
    bs, qs = rng.choice([(512, 8), (1024, 16), (256, 16)])
    srv = Server(c, rx_sdr_type="sdr-server", buffer_size=bs, queue_size=qs, read_timeout_seconds=2)
    srv.ctl.set("sndbuf", 4608)
    up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"])
    st = Streams(c, srv, up, seed, quick(26000, 60000), bs, 4)
    t, t2 = TUNINGS[0], TUNINGS[1]
    stalled = []
    def add_stalled(tt):
        cl, r = new_client(c, srv, tt, PARAMS[0], rng.choice([1, 2]), rcvbuf=2304)
        if r[0] != OK:
            c.violation("open:stalled", "valid request answered with %s" % (r,))
        else:
            stalled.append(cl)
    steady = []
    def add_steady(tt, prm):
        cl, r = new_client(c, srv, tt, prm, 1)
        if r[0] != OK:
            c.violation("open:steady", "valid request answered with %s" % (r,))
            return
        rd = Reader(cl)
        total = len(demod_bytes(c, st.data[tt], cl.req))
        st.follow.setdefault(tt, []).append((rd, total))
        steady.append((cl, rd, total))
    if rng.random() < 0.5:
        add_stalled(t)
        add_steady(t, PARAMS[0])
    else:
        add_steady(t, PARAMS[0])
        add_stalled(t)
    add_steady(t, PARAMS[1])
    add_steady(t2, PARAMS[1])
    add_stalled(t2)
    st.go.set()
    # other requests are served meanwhile
    for _ in range(3):
        t0 = time.time()
        try:
            if srv.ping(20) != (OK, 0):
                c.violation("ping:stalled", "ping failed")
            cl, r = new_client(c, srv, rng.choice([t, t2]), PARAMS[2], 2)
            cl.shutdown_session()
            cl.read_to_end()
            cl.close()
        except (Gone, Quiet, ValueError, OSError) as e:
            c.violation("blocked:stalled", "a request was not served while another client doesn't read: %r" % e, {"seed": seed})
        time.sleep(0.1)
    # one of the stalled clients leaves without ever having read
    quitter = stalled.pop(rng.randrange(len(stalled))) if stalled else None
    if quitter:
        quitter.close(abort=rng.random() < 0.5)
    for tt in (t, t2):
        st.finished[tt].wait(90)
    for cl, rd, total in steady:
        ok = rd.wait_len(total, 15)
        if st.fail or not ok:
            c.violation("stalled-by-other", "%s; %d of %d bytes" % (st.fail[:2], len(rd.data), total), {"conf": srv.conf, "seed": seed})
        try:
            cl.shutdown_session()
        except OSError:
            pass
        rd.wait_end(20)
        n = check_own(c, srv, st, cl, bytes(rd.data), "steady-beside-stalled")
        if n is not None and n != len(st.data[cl.t]):
            c.violation("steady-lost", "a client that was there from the beginning got %d samples of %d" % (n // 8, len(st.data[cl.t]) // 8), {"seed": seed})
        cl.close()
    for cl in stalled:
        # reads at last: the demodulation of the input that was not dropped
        rd = Reader(cl)
        time.sleep(0.3)
        try:
            cl.shutdown_session()
        except OSError:
            pass
        rd.wait_end(30)
        n = check_own(c, srv, st, cl, bytes(rd.data), "stalled", contiguous=False)
        c.add("stalled_dropped_samples", (len(st.data[cl.t]) - (n or 0)) // 8)
        cl.close()
    up.stop()
    finish_server(c, srv, "stall")


def files(c, seed):
    """clients with recordings of their own"""
    rng = random.Random(seed)
    srv = Server(c, buffer_size=rng.choice([64, 500, 4096]), queue_size=rng.choice([1, 2, 16]), stale=40, read_timeout_seconds=3)
    srv.ctl.set("sndbuf", 4608)
    if seed % 2 == 0:
        srv.ctl.delays(80, 400, seed=seed)
    recs = [ref_signal(c, seed * 50 + i, 1500 + 100 * i, 5, 48000, 2400, 0.1) for i in range(5)]
    big = ref_signal(c, seed * 50 + 30, 24000, 5, 48000, 2400, 0.1)
    # a client that doesn't read
    dead = srv.client(timeout=20, rcvbuf=2304)
    dead.open(T_RX, rx_body(dest=1, file=dict(filename=big), **PARAMS[0]))
    def one(i):
        r2 = random.Random(seed * 100 + i)
        for k in range(quick(5, 20)):
            rec, prm, dest = r2.choice(recs), r2.choice(PARAMS), r2.choice([1, 2, 2])
            try:
                cl = srv.client(timeout=30)
                r = cl.open(T_RX, rx_body(dest=dest, dump=True, file=dict(filename=rec), **prm))
                if r[0] != OK:
                    c.violation("open:files", "valid request answered with %s" % (r,))
                    return
                want = ref_demod(c, rec, prm)
                rd = Reader(cl)
                if k % 3 == 2:
                    cl.close(abort=True)
                    continue
                rd.wait_len(len(want), 30)
                # the samples after the last symbol are processed, too
                wait_for(lambda: False, 0.05)
                cl.shutdown_session()
                rd.wait_end(20)
                got = bytes(rd.data)
                if got != want:
                    c.violation("foreign-output:files", "%s: %s" % (prm, diff_text(got, want)), {"seed": seed})
                if dest == 2:
                    wait_for(lambda: len(srv.dump("demod2client", cl.id) or b"") >= len(want), 3)
                    f = srv.dump("demod2client", cl.id)
                    if f != want:
                        c.violation("foreign-file:files", "%s: %s" % (prm, diff_text(f or b"", want)), {"seed": seed})
                d, w = srv.dump("sdr2demod", cl.id), readf(rec)
                if d is None or d != w[:len(d)] or len(d) < len(w) * 0.5:
                    c.violation("foreign-dump:files", diff_text(d or b"", w, 8), {"seed": seed})
                cl.close()
                c.count(1, 1)
                c.add("clients_files")
                c.add("bytes_checked", len(want))
            except (Gone, Quiet, ValueError, OSError) as e:
                if srv.alive():
                    c.violation("open:files", "valid request: %r" % e)
                return
    ts = [threading.Thread(target=one, args=(i,)) for i in range(5)]
    [x.start() for x in ts]
    [x.join(120) for x in ts]
    dead.close()
    finish_server(c, srv, "files")


def ids(c, seed, gap):
    """clients whose identifiers differ by a multiple of 256 (65536) and each other's files, sessions and data"""
    rng = random.Random(seed)
    bs = rng.choice([256, 1024])
    srv = Server(c, rx_sdr_type="sdr-server", buffer_size=bs, queue_size=500, read_timeout_seconds=2)
    up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"])
    st = Streams(c, srv, up, seed, 6000, bs, 2)
    tun = TUNINGS[:2]
    def joined(t, label):
        cl, r = new_client(c, srv, t, rng.choice(PARAMS[:3]), rng.choice([1, 2]))
        if r[0] != OK:
            c.violation("open:" + label, "valid request answered with %s" % (r,))
        return cl
    def steady(n):
        out = []
        for i in range(n):
            cl = joined(tun[i % 2], "far-steady")
            rd = Reader(cl)
            total = len(demod_bytes(c, st.data[cl.t], cl.req))
            st.follow.setdefault(cl.t, []).append((rd, total))
            out.append((cl, rd, total))
        return out
    try:
        early = steady(4)
        first = early[0][0].id
        # every connection takes one identifier
        have = early[-1][0].id + 1
        for _ in range(first + gap - have):
            if srv.ping() != (OK, 0):
                c.violation("ping:ids", "ping failed")
        leavers = [joined(tun[(i + 1) % 2] if rng.random() < 0.5 else tun[i % 2], "far-leaver") for i in range(4)]
        c.add("identifiers_apart_%d" % (leavers[0].id - first), 4)
        late = steady(2)
        for cl in leavers[:2]:
            # leaves before the data
            cl.shutdown_session()
            cl.read_to_end()
            cl.close()
        st.go.set()
        time.sleep(0.05)
        for cl in leavers[2:]:
            cl.close(abort=rng.random() < 0.5)
        for t in tun:
            st.finished[t].wait(60)
    except (Gone, Quiet, ValueError, OSError) as e:
        c.violation("open:ids", "valid request: %r" % e)
        up.stop()
        return finish_server(c, srv, "ids")
    for cl, rd, total in early + late:
        ok = rd.wait_len(total, 20)
        try:
            cl.shutdown_session()
        except OSError:
            pass
        rd.wait_end(20)
        if st.fail or not ok:
            c.violation("steady-incomplete:ids", "identifiers %d apart; %s; %d of %d bytes" % (gap, st.fail[:2], len(rd.data), total), {"conf": srv.conf, "seed": seed})
        n = check_own(c, srv, st, cl, bytes(rd.data), "far-steady")
        if n is not None and n != len(st.data[cl.t]):
            c.violation("steady-lost:ids", "a client that was there from the beginning got %d samples of %d" % (n // 8, len(st.data[cl.t]) // 8), {"seed": seed})
        cl.close()
    for cl in leavers:
        check_own(c, srv, st, cl, None, "far-leaver", wait=1)
    up.stop()
    finish_server(c, srv, "ids")


def main(c):
    c.cov["rule"] = "one client session per evaluation; input and output files and socket of every client are compared with its own stream and parameters"
    build_server(c); build_ref(c)
    fs = [lambda s=s: churn(c, s) for s in range(SEED * 100, SEED * 100 + quick(4, 12))]
    fs += [lambda s=s: stall(c, s) for s in range(SEED * 100 + 20, SEED * 100 + 20 + quick(4, 12))]
    fs += [lambda s=s: files(c, s) for s in range(SEED * 100 + 40, SEED * 100 + 40 + quick(3, 10))]
    gaps = [256, 65536, 256] + quick([], [512, 4096, 32768, 65536])
    fs = [lambda g=g, i=i: ids(c, SEED * 100 + 60 + i, g) for i, g in enumerate(gaps)] + fs
    parallel(lambda f: f(), fs, 6)
    c.sample("steady clients on 3 tunings with 2 parameter sets each, 4 threads of clients joining and leaving (shutdown message, FIN, RST)")


run_check(main, "S06")
