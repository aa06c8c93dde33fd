import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

SIG = {}


def cuts(rng, n, kind, bs):
    """lengths of the pieces the upstream server sends and the pause after each"""
    out, left, pauses = [], n, rng.randrange(1, 4)
    def piece(k, pause=0.0):
        nonlocal left
        k = max(1, min(k, left))
        out.append((k, pause))
        left -= k
    if kind == "whole" or kind == "coalesced":
        piece(n)
    elif kind == "bytes":
        while left > 0 and len(out) < 1500:
            piece(1, 0.0005 if rng.random() < 0.05 else 0)
        if left:
            piece(left)
    elif kind == "random":
        while left > 0:
            piece(rng.choice([1, 3, 7, 8, 9, 100, 1461, 8 * bs - 1, 8 * bs, 8 * bs + 1, 50000]), 0.002 if rng.random() < 0.1 else 0)
    elif kind == "pause":
        # pauses longer than the read timeout: at a sample boundary, inside of a sample, shortly after the beginning
        at = sorted(rng.choice([rng.randrange(1, 16), rng.randrange(1, n), rng.randrange(1, n // 8) * 8, min(n - 1, 8 * bs * rng.randrange(1, 4)), n - rng.randrange(1, 9)]) for _ in range(pauses))
        p = 0
        for x in at:
            if x > p:
                piece(x - p, rng.choice([1.3, 1.3, 2.5]))
                p = x
        if left > 0:
            piece(left)
    elif kind == "trickle":
        # a few bytes of a sample at a time, every one after the read timeout
        first = rng.randrange(1, n - 40)
        piece(first, 1.2)
        for _ in range(3):
            piece(rng.randrange(1, 8), 1.2)
        if left > 0:
            piece(left)
    return out


def session(c, srv, up, k, seed, kind):
    rng = random.Random(seed)
    data, want_all = SIG["data"], SIG["want"]
    bs = srv.conf["buffer_size"]
    n = len(data)
    end = rng.choice(["fin", "fin-partial", "stay", "rst", "stay"])
    if rng.random() < 0.3 and kind != "bytes":
        n = rng.randrange(400, n // 8) * 8
    if end == "fin-partial":
        n -= rng.randrange(1, 8)
    dest, dump = rng.choice([0, 1, 1, 2]), rng.random() < 0.5 or end == "rst"
    plan = cuts(rng, n, kind, bs)
    label = "%s/%s: buffer %d, %d bytes in %d pieces, dest %d" % (kind, end, bs, n, len(plan), dest)

    def viol(key, det):
        c.violation("%s:%s" % (key, kind), "%s: %s" % (label, det), {"seed": seed, "plan": plan[:50], "conf": srv.conf})

    def script(cn):
        if cn.read_request() is None:
            return
        p = 0
        if kind == "coalesced":
            cn.s.sendall(struct.pack(">BBBI", 0, 2, 0, 0) + data[:n])
            p = n
        elif rng.random() < 0.3:
            # the response byte by byte
            for b in struct.pack(">BBBI", 0, 2, 0, 0):
                cn.s.sendall(bytes([b]))
                time.sleep(0.01)
        else:
            cn.respond()
        cn.watch()
        up.register(cn)
        if p == 0:
            for size, pause in plan:
                cn.s.sendall(data[p:p + size])
                p += size
                if pause:
                    time.sleep(pause)
        cn.sent = True
        if end.startswith("fin"):
            cn.s.shutdown(socket.SHUT_WR)
        elif end == "rst":
            # nothing that was received may be lost: reset only after it has been read
            cn.close(abort=True)
    up.script = script
    cl = srv.client(timeout=30)
    try:
        r = cl.open(T_RX, rx_body(dest=dest, dump=dump))
    except (Gone, Quiet, ValueError, OSError) as e:
        return viol("open", repr(e))
    if r[0] != OK:
        return viol("open", "valid request was answered with %s" % (r,))
    rd = Reader(cl)
    cn = up.wait_conn(k)
    if cn is None:
        return viol("no-upstream", "the server did not connect")
    total = n // 8 * 8
    if total == len(data):
        want = want_all
    else:
        p = tmp(c)
        with open(p, "wb") as f:
            f.write(data[:total])
        want = ref_demod(c, p, {})
        os.unlink(p)
    wait_for(lambda: getattr(cn, "sent", False) or cn.done.is_set(), 60)
    complete = True
    if end != "rst":
        if dest != 0:
            complete = rd.wait_len(len(want), 30)
            if not complete:
                viol("incomplete", "the client received %d bytes of %d" % (len(rd.data), len(want)))
        if dest == 0 or end == "stay":
            # the last samples (they don't always produce output) are processed at the latest after the read timeout
            time.sleep(srv.conf["read_timeout_seconds"] + 0.2)
            srv.idle(20)
    else:
        time.sleep(0.2)
        srv.idle(10)
    try:
        cl.shutdown_session()
    except OSError:
        pass
    if not rd.wait_end(30):
        return viol("not-closed", "the shutdown message did not end the session")
    got = bytes(rd.data)
    cl.close()
    c.count(1, 1)
    c.add("sessions_" + kind)
    c.add("pieces", len(plan))
    c.add("pauses", sum(1 for _, p in plan if p >= 1))
    dumped = None
    if dump:
        wait_for(lambda: len(srv.dump("sdr2demod", cl.id) or b"") >= total, 3 if end != "rst" else 0.3)
        dumped = srv.dump("sdr2demod", cl.id)
        if dumped is None or dumped != data[:len(dumped)] or (end != "rst" and len(dumped) != total):
            viol("dump", diff_text(dumped or b"", data[:total], 8))
    outs = []
    if dest != 1:
        wait_for(lambda: len(srv.dump("demod2client", cl.id) or b"") >= len(want), 3 if end != "rst" else 0.3)
        outs.append(("file", srv.dump("demod2client", cl.id) or b""))
    if dest != 0:
        outs.append(("socket", got))
    if end == "rst" and dumped is not None:
        p = tmp(c)
        with open(p, "wb") as f:
            f.write(dumped)
        want = ref_demod(c, p, {})
        os.unlink(p)
    for where, o in outs:
        if o != want and (complete or o[:len(want)] != want[:len(o)]):
            viol("output", "%s: %s" % (where, diff_text(o, want)))
    c.add("bytes_checked", len(want))


def job(c, j):
    seed, bs, kinds = j
    n = len(SIG["data"]) // 8
    srv = Server(c, rx_sdr_type="sdr-server", buffer_size=bs, queue_size=min(65000, n // bs + 200), stale=20, read_timeout_seconds=1)
    up = Upstream(srv.addr, srv.conf["rx_sdr_server_port"])
    if seed % 3 == 0:
        srv.ctl.delays(100, 300, seed=seed)
    try:
        for i, k in enumerate(kinds):
            session(c, srv, up, i, seed * 100 + i, k)
            if not srv.alive() or len(c.viol) > 5:
                break
    finally:
        up.stop()
    finish_server(c, srv, "buffer %d" % bs)


def main(c):
    c.cov["rule"] = "one receive session per evaluation; the upstream server delivers the same samples in differently cut and delayed pieces; output compared with the demodulator applied to all of them"
    build_server(c); build_ref(c)
    p = ref_signal(c, SEED, 1200, 10, 48000, 5000)
    SIG["data"] = readf(p)
    SIG["want"] = ref_demod(c, p, {})
    rng = random.Random(SEED)
    jobs = []
    for i in range(quick(24, 96)):
        bs = [40, 64, 300, 1024, 1500, 4096, 20000][i % 7]
        kinds = ["pause", "whole", "random", "coalesced", "bytes"] if i % 2 else ["trickle", "random", "pause"]
        kinds = kinds * quick(1, 3)
        rng.shuffle(kinds)
        jobs.append((SEED * 1000 + i, bs, kinds))
    parallel(lambda j: job(c, j), jobs, 24)
    c.sample("pause/fin-partial: buffer 300, 95997 bytes in 3 pieces (pauses 1.3 s inside of a sample), dest 1")


run_check(main, "S05")
