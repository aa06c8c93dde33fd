import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *


def tx_stream(rng, n, buffer_size, big):
    """-> (list of (message bytes, expected response or None, transmitted data))"""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.45:
            size = rng.choice([1, 2, 3, 17, buffer_size - 1, buffer_size, buffer_size + 1, 2 * buffer_size + 5, rng.randrange(1, 1200)])
            if big and rng.random() < 0.03:
                size = rng.choice([32764, 32763, 32760])  # body of exactly the maximum length, one less
            d = rng.randbytes(max(1, min(size, 32764)))
            extra = fint(9, 7) if rng.random() < 0.1 and size < 32000 else b""
            out.append((msg(T_TXDATA, fbytes(1, d) + extra), (OK, 0), d, "data %d" % len(d)))
        elif k < 0.50:
            out.append((msg(T_TXDATA, fbytes(1, b"")), (OK, 0), b"", "empty data"))
        elif k < 0.60:
            t = rng.choice([T_PING, T_RX, T_TX, T_RESPONSE, 6, 9, 200, 255, rng.randrange(6, 256)])
            body = rng.choice([b"", msg(T_SHUTDOWN) * 12000, msg(T_SHUTDOWN), msg(T_TXDATA, fbytes(1, b"abcd")), rng.randbytes(rng.randrange(1, 3000)), tx_body()])
            out.append((msg(t, body), None, b"", "type %d body %d" % (t, len(body))))
        elif k < 0.70:
            body = rng.choice([b"", msg(T_SHUTDOWN) * 3, fbytes(1, b"abcd"), rng.randbytes(rng.randrange(1, 2000))])
            v = rng.choice([1, 2, 128, 255, rng.randrange(1, 256)])
            out.append((msg(rng.choice([T_TXDATA, T_SHUTDOWN, T_PING, 77]), body, version=v), None, b"", "version %d body %d" % (v, len(body))))
        elif k < 0.78 and big:
            n2 = rng.choice([32 * 1024 + 1, 40000, 65536, 65537, 100000, 200000])
            out.append((msg(T_TXDATA, (msg(T_SHUTDOWN) * (n2 // 6 + 1))[:n2]), (FAIL, INVALID), b"", "data too long %d" % n2))
        elif k < 0.86:
            body = rng.choice([b"", b"\xff" * 12, fbytes(2, b"no data"), fbytes(1, b"abcd")[:-1], b"\x0a\xff\xff\xff\xff\x0f" + b"z" * 20])
            out.append((msg(T_TXDATA, body), (FAIL, INVALID), b"", "malformed data %d" % len(body)))
        else:
            d = rng.randbytes(rng.randrange(1, 60))
            out.append((msg(T_TXDATA, fbytes(1, d)), (OK, 0), d, "data %d" % len(d)))
    return out


def tx_session(c, srv, seed, mode):
    rng = random.Random(seed)
    bs = srv.conf["buffer_size"]
    path = os.path.join(srv.dir, "tx-%d" % seed)
    req = dict(baud=9600, fsk=dict(dev=2400), file=dict(filename=path))
    cl = srv.client(timeout=30)
    label = "tx %s" % mode
    def viol(key, det):
        c.violation("%s:%s" % (key, mode), "seed %d: %s" % (seed, det), {"seed": seed, "mode": mode, "conf": srv.conf})
    for _ in range(100):
        r = cl.open(T_TX, tx_body(**req))
        if r[0] == OK:
            break
        cl.close(); time.sleep(0.05)
        cl = srv.client(timeout=30)
    if r[0] != OK:
        viol("open", "%s" % (r,))
        return
    msgs = tx_stream(rng, rng.randrange(6, 16) if mode in ("pause", "slow") else rng.randrange(10, 40), bs, True)
    if mode == "slow":
        # a body that stops for longer than the read timeout is given up
        msgs = [(m[0][:rng.randrange(6, len(m[0]))], (FAIL, INVALID), b"", "truncated data") if m[3].startswith("data ") and len(m[0]) < 30000 and rng.random() < 0.12 else m for m in msgs]
    want = [(m[1], m[3]) for m in msgs if m[1] is not None]
    got, err = [], []
    def reader():
        try:
            for _ in want:
                got.append(cl.response())
        except (Gone, Quiet, ValueError, OSError) as e:
            err.append(e)
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    try:
        if mode == "lockstep":
            # every message on its own, answered before the next one
            k = 0
            for m in msgs:
                cl.send(m[0])
                if m[1] is not None:
                    k += 1
                    wait_for(lambda: len(got) >= k or err, 20, 0.001)
        elif mode == "pause":
            # longer than the read timeout between messages
            for i, m in enumerate(msgs):
                cl.send(m[0])
                if i in (1, 4):
                    time.sleep(srv.conf["read_timeout_seconds"] + 0.4)
        elif mode == "slow":
            # longer than the read timeout inside of a header or of a body that is ignored; shorter inside of data, but longer in total
            rt = srv.conf["read_timeout_seconds"]
            trickled = 0
            for m in msgs:
                x = rng.random()
                if m[3] == "truncated data":
                    cl.send(m[0])
                    k = sum(1 for x in msgs[:msgs.index(m) + 1] if x[1] is not None)
                    wait_for(lambda: len(got) >= k or err, 20, 0.001)
                elif x < 0.12:
                    h = rng.randrange(1, 6)
                    cl.send(m[0][:h])
                    time.sleep(rt + 0.3)
                    cl.send(m[0][h:])
                elif x < 0.4 and m[1] is None and len(m[0]) > 7:
                    h = rng.randrange(6, len(m[0]))
                    cl.send(m[0][:h])
                    time.sleep(rt + 0.3)
                    cl.send(m[0][h:])
                elif x < 0.2 and len(m[0]) > 9:
                    cl.send(m[0][:6])
                    time.sleep(rt * 0.4)
                    cl.send(m[0][6:7])
                    time.sleep(rt * 0.4)
                    cl.send(m[0][7:8])
                    time.sleep(rt * 0.4)
                    cl.send(m[0][8:])
                elif x < 0.27 and len(m[0]) > 14 and m[1] is not None and trickled < 2:
                    # every pause is shorter than the read timeout, together they are much longer
                    trickled += 1
                    cl.send(m[0][:7])
                    for i in range(7, 13):
                        time.sleep(rt * 0.55)
                        cl.send(m[0][i:i + 1])
                    cl.send(m[0][13:])
                    c.add("trickled_bodies")
                else:
                    cl.send(m[0])
        else:
            b = b"".join(m[0] for m in msgs)
            if mode == "bytewise":
                b2 = b[:3000]
                for i in range(0, len(b2)):
                    cl.s.sendall(b2[i:i + 1])
                cl.send(b[3000:])
            elif mode == "fragments":
                p = 0
                while p < len(b):
                    n = rng.choice([1, 2, 3, 5, 6, 7, 11, 100, 1000, 5000])
                    cl.send(b[p:p + n])
                    p += n
                    if rng.random() < 0.1:
                        time.sleep(0.003)
            else:
                cl.send(b)
    except OSError as e:
        err.append(e)
    th.join(40)
    c.count(len(msgs), len(msgs))
    c.add("messages_" + mode, len(msgs))
    # a last data message marks the end
    fin = rng.randbytes(9)
    tail = None
    if not err and len(got) == len(want):
        try:
            cl.send(tx_data(fin))
            tail = cl.response()
            cl.shutdown_session()
            rest = cl.read_to_end()
            if rest:
                viol("extra-response", "unexpected %s at the end of the session" % rest[:40].hex())
        except (Gone, Quiet, ValueError, OSError) as e:
            err.append(e)
    exp = [w for w, _ in want]
    if err or len(got) != len(exp):
        i = len(got)
        viol("responses-missing", "%d of %d responses (%r); the next was for %s; messages %s" % (i, len(exp), err, want[i][1] if i < len(want) else "the end", [m[3] for m in msgs][:40]))
    elif got != exp:
        i = next(i for i in range(len(exp)) if got[i] != exp[i])
        viol("response", "response %d to '%s' is %s instead of %s; messages %s" % (i, want[i][1], got[i], exp[i], [m[3] for m in msgs]))
    elif tail != (OK, 0):
        viol("response", "last message answered with %s" % (tail,))
    else:
        data = b"".join(m[2] for m in msgs) + fin
        w = ref_mod(c, data, req)
        g = readf(path)
        if g != w:
            viol("transmitted", "samples of the complete messages, in order: " + diff_text(g, w, 8))
        c.add("samples_compared", len(w) // 8)
    cl.close()
    wait_for(lambda: srv.threads() <= 2 or not srv.alive(), 5)
    if os.path.exists(path):
        os.unlink(path)


def rx_session(c, srv, seed, up, sig, want):
    """messages that make no sense in a receive session don't disturb it; only the shutdown message ends it"""
    rng = random.Random(seed)
    cl = srv.client(timeout=30)
    def viol(key, det):
        c.violation("%s:rx" % key, "seed %d: %s" % (seed, det), {"seed": seed, "conf": srv.conf})
    r = cl.open(T_RX, rx_body(file=dict(filename=sig)))
    if r[0] != OK:
        viol("open", r)
        return
    rd = Reader(cl)
    b = b""
    for _ in range(rng.randrange(3, 20)):
        t = rng.choice([T_TXDATA, T_PING, T_TX, T_RX, T_RESPONSE, 6, 255])
        body = rng.choice([b"", msg(T_SHUTDOWN), msg(T_SHUTDOWN) * 50, fbytes(1, b"abcd"), rng.randbytes(rng.randrange(1, 3000)), bytes(40000)])
        b += msg(t, body, version=rng.choice([0, 0, 0, 1, 200]))
    c.count(1, 1)
    p = 0
    try:
        while p < len(b):
            n = rng.choice([1, 5, 6, 7, 500, 20000])
            cl.s.sendall(b[p:p + n])
            p += n
            if rng.random() < 0.05:
                time.sleep(0.01)
        if rng.random() < 0.5:
            cl.s.sendall(msg(T_SHUTDOWN)[:3])
            time.sleep(rng.choice([0.1, 0.1, 1.3]))
            if not rd.wait_len(len(want), 30):
                viol("data", "session delivered %d bytes of %d" % (len(rd.data), len(want)))
            ended = rd.wait_end(0.3)
            if ended:
                viol("ended-early", "the session ended without a shutdown message")
            cl.s.sendall(msg(T_SHUTDOWN)[3:])
        else:
            if not rd.wait_len(len(want), 30):
                viol("data", "session delivered %d bytes of %d" % (len(rd.data), len(want)))
            if rd.wait_end(0.3):
                viol("ended-early", "the session ended without a shutdown message")
            cl.s.sendall(msg(T_SHUTDOWN))
        if not rd.wait_end(15):
            viol("not-ended", "the shutdown message didn't end the session")
    except OSError as e:
        viol("ended-early", "%r; %d of %d bytes received" % (e, len(rd.data), len(want)))
    if bytes(rd.data) != want:
        viol("data", diff_text(bytes(rd.data), want))
    rd.stopped = True
    cl.close()
    c.add("rx_sessions")


def server_job(c, job):
    seed, modes = job
    rng = random.Random(seed)
    conf = dict(buffer_size=rng.choice([64, 300, 1024, 4096]), read_timeout_seconds=1 if modes[0] in ("pause", "slow", "rx") else 3)
    srv = Server(c, **conf)
    if rng.random() < 0.4:
        srv.ctl.delays(60, 800, seed=seed)
    if rng.random() < 0.4:
        srv.ctl.set("short_io", rng.choice([1, 3, 7, 50]))
    if "rx" in modes:
        sig = ref_signal(c, seed, 600, 10, 48000, 5000)
        want = ref_demod(c, sig, {})
        for k in range(quick(6, 40)):
            rx_session(c, srv, seed * 100 + k, None, sig, want)
    else:
        for k, m in enumerate(modes):
            tx_session(c, srv, seed * 100 + k, m)
            if not srv.alive() or (len(c.viol) > 3):
                break
    finish_server(c, srv, "framing")


def main(c):
    c.cov["rule"] = "one message of a session per evaluation; expected responses and transmitted samples from a model of the framing; messages are random"
    build_server(c); build_ref(c)
    jobs = []
    for i in range(quick(20, 80)):
        jobs.append((SEED * 1000 + i, ["whole", "fragments", "lockstep", "bytewise", "fragments", "whole"] * quick(1, 3)))
    for i in range(quick(4, 16)):
        jobs.append((SEED * 1000 + 500 + i, ["pause"]))
    for i in range(quick(12, 40)):
        jobs.append((SEED * 1000 + 600 + i, ["slow"]))
    for i in range(quick(4, 12)):
        jobs.append((SEED * 1000 + 800 + i, ["rx"]))
    parallel(lambda j: server_job(c, j), jobs)
    c.sample("transmit session: data 17, version 2 body 18 (shutdown messages), data too long 40000, malformed data 12, data 300 sent in fragments of 1..5000 bytes")


run_check(main, "S03")
