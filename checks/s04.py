import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

# sampling rate, baud, decimation, deviation, transition width, samples per symbol of the test signal
MODES = [(48000, 4800, 2, 5000, 2000, 10), (48000, 4800, 1, -5000, 1000, 10), (48000, 9600, 1, 2400, 2000, 5), (96000, 4800, 4, 5000, 2000, 20),
         (19200, 1200, 3, 600, 500, 16), (240000, 9600, 8, 9600, 2000, 25), (50000, 9600, 2, 5000, 2000, 5),
         (300000, 1200, 200, 1200, 4000, 250), (75000, 300, 129, 600, 1000, 250)]


def wrap8(d):
    return (d + 128) % 256 - 128


class Sigs:
    """recordings are shared by the sessions"""
    def __init__(self, c):
        self.c, self.d, self.l = c, {}, threading.Lock()

    def get(self, seed, mode, nsym):
        k = (seed, mode, nsym)
        with self.l:
            if k not in self.d:
                m = MODES[mode]
                self.d[k] = readf(ref_signal(self.c, seed, nsym, m[5], m[0], m[3], 0.08, 150))
            return self.d[k]


def recording(rng, c, sigs, mode, bs, long):
    nsym = 24000 if long else rng.choice([200, 600, 1200]) if MODES[mode][5] < 100 else rng.choice([32, 200])
    data = sigs.get(SEED * 10 + mode, mode, nsym)
    n = len(data) // 8
    k = rng.random()
    if not long:
        if k < 0.35:
            want = rng.choice([0, 1, 2, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1])
            n = max(0, min(n, want))
        elif k < 0.6:
            n = rng.randrange(1, n)
    b = data[:n * 8]
    if rng.random() < 0.3:
        b += rng.randbytes(rng.randrange(1, 8))
    p = tmp(c, ".cf32")
    with open(p, "wb") as f:
        f.write(b)
    return p, n


def session(c, srv, sigs, seed, kind):
    rng = random.Random(seed)
    bs = srv.conf["buffer_size"]
    mode = rng.randrange(len(MODES))
    if bs <= 2:
        mode = rng.choice([0, 2, 4])
    elif kind == "doppler" and rng.random() < 0.6:
        # a small deviation shows a small frequency difference
        mode = 4
    fs, baud, dec, dev, tw, sps = MODES[mode]
    slow = kind == "slow"
    rec, n = recording(rng, c, sigs, 2 if slow else mode, bs, slow)
    if slow:
        fs, baud, dec, dev, tw, sps = MODES[2]
    if bs <= 2 and n > 4000:
        os.truncate(rec, 4000 * 8)
        n = 4000
    dest = rng.choice([1, 2]) if slow else rng.choice([0, 1, 2])
    dump = rng.random() < 0.6
    offset = rng.choice([0, 0, 0, 700, -1300])
    dop = None
    if kind == "doppler":
        # the height of the station in 1e-4 km: also stations far above the ground
        dop = dict(DOPPLER, alt=rng.choice([0, 2500, 88000, 30000000, 30000000]), lon=rng.choice([DOPPLER["lon"], 1, 3599999999]))
        if rng.random() < 0.4:
            # the shift is that of the centre frequency
            offset = rng.choice([-1, 1]) * rng.choice([100, 400]) * fs
    req = dict(fs=fs, baud=baud, dec=dec, fsk=dict(dev=dev, tw=tw, dc=rng.random() < (0.25 if dop else 0.6)), dest=dest, dump=dump, offset=offset,
               center=437525000 + rng.randrange(1000), doppler=dop, file=dict(filename=rec, start=TLE_START))
    early = kind == "early" and n > 0
    label = "%s: buffer %d, queue %d, %d samples, destination %d, dump %d, offset %d, rate %d/%d" % (kind, bs, srv.conf["queue_size"], n, dest, dump, offset, fs, baud)

    def viol(key, det):
        c.violation("%s:%s" % (key, kind), "%s: %s" % (label, det), {"seed": seed, "req": req, "conf": srv.conf})

    cl = srv.client(timeout=40, rcvbuf=2304 if slow else None)
    try:
        r = cl.open(T_RX, rx_body(**req))
    except (Gone, Quiet, ValueError, OSError) as e:
        return viol("open", repr(e))
    if r[0] != OK:
        return viol("open", "valid request was answered with %s" % (r,))
    want = ref_demod(c, rec, req, offset, bs if dop else 0)
    if slow:
        # the client doesn't read for longer than any timeout: nothing is lost
        time.sleep(srv.conf["read_timeout_seconds"] + 0.7)
    rd = Reader(cl)
    if early:
        time.sleep(rng.choice([0, 0, 0.001, 0.005, 0.02]))
    elif not srv.file_consumed(rec, 60):
        c.inconclusive.append("recording not consumed: " + label)
    if dest != 0 and not early and not rd.wait_len(len(want), 30) and len(rd.data) + 2 < len(want):
        viol("incomplete", "the client received %d bytes of %d" % (len(rd.data), len(want)))
    try:
        cl.shutdown_session()
    except OSError as e:
        viol("ended-early", "the server closed the connection: %r" % e)
    if not rd.wait_end(40):
        return viol("not-closed", "the shutdown message did not end the session")
    got = bytes(rd.data)
    cl.close()
    c.count(1, 1)
    c.add("sessions_" + kind)
    c.add("samples_in", n)
    c.add("bytes_checked", len(want) * (2 if dest == 2 else 1))
    dumped = None
    if dump:
        ref = ref_shift(c, rec, fs, offset) if offset else readf(rec)[:n * 8]
        size = len(ref)
        dumped = srv.dump("sdr2demod", cl.id) if early else wait_for(lambda: (lambda d: d if d is not None and len(d) >= size else None)(srv.dump("sdr2demod", cl.id)), 3) or srv.dump("sdr2demod", cl.id)
        if dumped is None:
            viol("dump-missing", "there is no dump file")
        elif early:
            i = compare(c, "near", dumped, ref[:len(dumped)], 2e-3 if offset else 0)
            if i is not None or len(dumped) % 8:
                viol("dump", "not a beginning of the recording: %s" % i)
        else:
            i = compare(c, "near", dumped, ref, 2e-3 if offset else 0)
            if i is not None:
                viol("dump", i)
        c.add("dumps_checked")
    elif srv.dump("sdr2demod", cl.id) is not None:
        viol("dump-not-requested", "a dump of the input was written")
    filed = None
    if dest != 1:
        filed = srv.dump("demod2client", cl.id)
        if not early:
            wait_for(lambda: len(srv.dump("demod2client", cl.id) or b"") >= len(want), 3)
            filed = srv.dump("demod2client", cl.id)
        if filed is None:
            viol("file-missing", "there is no output file")
            return
    elif srv.dump("demod2client", cl.id) is not None:
        viol("file-not-requested", "an output file was written")
    if dest == 0 and got:
        viol("socket-not-requested", "the client received %d bytes" % len(got))
    if early:
        # what was processed before the client left is exactly the demodulation of a beginning of the recording
        outs = [o for o in (got if dest != 0 else None, filed) if o is not None]
        if len(set(outs)) > 1:
            viol("socket-and-file-differ", diff_text(outs[0], outs[1]))
        if dumped is not None and not offset:
            p = tmp(c)
            with open(p, "wb") as f:
                f.write(dumped)
            want = ref_demod(c, p, req, 0, 0)
            os.unlink(p)
            if outs[0] != want:
                viol("output", "not the demodulation of the dumped input: " + diff_text(outs[0], want))
        else:
            o = outs[0]
            if len(o) > len(want) or not near_s8(o, want[:len(o)], 3 if offset else 0, 0):
                viol("output", "not a beginning of the demodulated recording: " + diff_text(o, want))
    else:
        exact = not offset and not dop
        for where, o in (("socket", got if dest != 0 else None), ("file", filed)):
            if o is None:
                continue
            if o != want if exact else not near_s8(o, want, 4, 1):
                viol("output", "%s: %s" % (where, diff_text(o, want)))
            elif not exact and len(want) >= 100 and abs(sum(wrap8(x - y) for x, y in zip(o, want))) > 0.7 * len(want):
                viol("frequency", "%s: the soft bits are %.2f off on average" % (where, sum(wrap8(x - y) for x, y in zip(o, want)) / len(want)))
        if dest == 2 and got != filed:
            viol("socket-and-file-differ", diff_text(got, filed))
    os.unlink(rec)
    for k, x in (("sdr2demod", "rx.sdr2demod.%d.cf32"), ("demod2client", "rx.demod2client.%d.s8")):
        try:
            os.unlink(os.path.join(srv.out, x % cl.id))
        except OSError:
            pass


def job(c, sigs, j):
    seed, bs, qs, kinds, delays = j
    srv = Server(c, buffer_size=bs, queue_size=qs, stale=60 if seed % 3 else 0, read_timeout_seconds=1 if "slow" in kinds else 3)
    if "slow" in kinds:
        srv.ctl.set("sndbuf", 4608)
    if delays:
        srv.ctl.delays(100, 500, seed=seed)
        srv.ctl.set("short_io", [0, 1, 13, 200][seed % 4])
    for i, k in enumerate(kinds):
        try:
            session(c, srv, sigs, seed * 100 + i, k)
        except OSError as e:
            if srv.alive():
                raise
        if not srv.alive() or len(c.viol) > 5:
            break
    finish_server(c, srv, "buffer %d queue %d" % (bs, qs))


def main(c):
    c.cov["rule"] = "one receive session per evaluation, all different; socket, output file and dump are compared with the demodulator applied to the whole recording"
    build_server(c); build_ref(c)
    sigs = Sigs(c)
    rng = random.Random(SEED)
    jobs = []
    shapes = [(1, 1), (1, 7), (2, 2), (3, 64), (16, 1), (127, 2), (127, 64), (1000, 1), (4096, 3), (4096, 16), (20011, 2), (131072, 1), (262144, 4)]
    for r in range(quick(3, 10)):
        for i, (bs, qs) in enumerate(shapes):
            kinds = ["whole"] * quick(5, 10) + ["early"] * quick(4, 8) + (["doppler"] * quick(1, 3) if bs >= 127 else [])
            rng.shuffle(kinds)
            jobs.append((SEED * 1000 + r * 100 + i, bs, qs, kinds, (i + r) % 3 == 1))
        for i, (bs, qs) in enumerate([(127, 1), (2048, 4), (4096, 64)]):
            jobs.append((SEED * 1000 + r * 100 + 50 + i, bs, qs, ["slow"] * quick(1, 3), False))
    jobs.sort(key=lambda j: "slow" not in j[3])
    parallel(lambda j: job(c, sigs, j), jobs)
    c.sample("whole: buffer 127, queue 2, 381 samples + 5 bytes, destination 2, dump 1, offset -1300")


run_check(main, "S04")
