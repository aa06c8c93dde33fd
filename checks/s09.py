import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

FILE_MODES = [(48000, 4800, 5000), (48000, 9600, -2400), (9600, 4800, 1200)]
PLUTO_MODES = [(600000, 100000, 25000), (1000000, 100000, -50000)]


def device_bytes(srv, pluto, path):
    if os.path.islink(path):
        return b""
    try:
        return readf(srv.iio + "/tx" if pluto else path)
    except FileNotFoundError:
        return b""


def session(c, srv, k, seed, kind, pluto):
    """messages of random sizes; before some of them the device is made to fail at some point of the message"""
    rng = random.Random(seed)
    bs = srv.conf["buffer_size"]
    fs, baud, dev = rng.choice(PLUTO_MODES if pluto else FILE_MODES)
    sps = fs // baud
    offset = rng.choice([0, 0, 1500])
    path = os.path.join(srv.dir, "tx-%d" % k)
    if kind == "full":
        # the file system of the device is full
        os.symlink("/dev/full", path)
    dump = rng.choice([False, True]) if kind in ("dump-full", "full", "iio") else False
    if kind == "dump-full":
        dump = True
        for i in range(300):
            p = os.path.join(srv.out, "tx.mod2sdr.%d.cf32" % i)
            if not os.path.lexists(p):
                os.symlink("/dev/full", p)
    req = dict(fs=fs, baud=baud, fsk=dict(dev=dev), offset=offset, dump=dump, file=dict(filename=path))
    hist = []
    def viol(key, det):
        c.violation("%s:%s" % (key, kind), "buffer %d, rate %d/%d, offset %d, dump %d; history %s: %s" % (bs, fs, baud, offset, dump, hist[-12:], det), {"seed": seed, "req": req, "conf": srv.conf})

    try:
        cl, r = open_device(srv, T_TX, tx_body(**req))
        if r[0] != OK:
            return viol("open", "valid request answered with %s" % (r,))
        acked, failed_before = b"", False
        for i in range(rng.randrange(4, 9)):
            n = rng.choice([1, 3, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 2, rng.randrange(1, 400)])
            n = max(4, min(n, 20000, 300000 // (8 * sps)))
            data = rng.randbytes(n)
            before = len(device_bytes(srv, pluto, path))
            armed = kind in ("fwrite", "iio") and rng.random() < 0.5
            if armed:
                pieces = (n + bs - 1) // bs
                nth = rng.choice([1, 1, pieces, max(1, pieces // 2), rng.randrange(1, 2 * pieces + 1)])
                srv.ctl.arm(F_IIO if pluto else F_FWRITE, nth, rng.choice([0, 0, 3]))
            cl.send(tx_data(data))
            r = cl.response()
            fired = 0
            if armed:
                fired, name, seen = srv.ctl.disarm()
            # a failure which was overcome is not a failure of the message, if all of the samples are there
            fails = kind == "full" or bool(fired) and r != (OK, 0)
            hist.append("%d bytes%s -> %s" % (n, ", device failed" if fails else "", r))
            c.count(1, 1)
            c.add("messages_failed" if fails else "messages_ok")
            if r != ((FAIL, INTERNAL) if fails else (OK, 0)):
                return viol("response", "answered with %s instead of %s" % (r, (FAIL, INTERNAL) if fails else (OK, 0)))
            if kind == "full":
                continue
            now = device_bytes(srv, pluto, path)
            unit = 4 if pluto else 8
            total = n * 8 * sps * unit
            if not fails:
                if len(now) - before < total or (not failed_before and len(now) - before != total):
                    return viol("not-transmitted", "acknowledged, but %d of %d samples are at the device" % ((len(now) - before) // unit, total // unit))
                acked += data
                # its own samples: the phase may start anywhere and the first symbols depend on the data before
                want = ref_mod(c, data, req)
                cut = 8 * sps
                if n > 2:
                    tail = now[len(now) - total:][cut * unit:]
                    if pluto and offset == 0 or not pluto:
                        d = compare(c, "steps", tail, want[cut * 8:], 0.02 if pluto else 2e-3, 16 if pluto else 32)
                        if d:
                            return viol("samples", "samples of the message: " + d)
                        c.add("samples_checked", len(tail) // unit)
                failed_before = False
            else:
                # the rest of a failed write may reach the device with the next message
                if not failed_before and len(now) - before > total:
                    return viol("samples", "more samples than the message has after a failure")
                failed_before = True
        cl.shutdown_session()
        rest = cl.read_to_end()
        if rest:
            viol("more-than-one-response", "additional bytes at the end of the session: %s" % rest[:40].hex())
        cl.close()
    except (Gone, Quiet, ValueError, OSError) as e:
        return viol("session", repr(e))
    c.add("sessions_" + kind)


def job(c, j):
    seed, bs, kind = j
    pluto = kind == "iio"
    srv = Server(c, iio=pluto, tx_sdr_type="plutosdr" if pluto else "file", buffer_size=bs, read_timeout_seconds=2)
    for k in range(quick(15, 60)):
        session(c, srv, k, seed * 1000 + k, kind, pluto)
        if not srv.alive() or len(c.viol) > 5:
            break
    finish_server(c, srv, "%s buffer %d" % (kind, bs))


def main(c):
    c.cov["rule"] = "one transmit message per evaluation; the device fails at a chosen operation of the message, or not; response, sample count and the samples of later messages checked"
    build_server(c); build_ref(c); build_iio(c)
    jobs = []
    for r in range(quick(1, 5)):
        for i, bs in enumerate([2, 16, 100, 1000, 4096]):
            for j, kind in enumerate(["fwrite", "iio", "full", "dump-full", "none"]):
                jobs.append((SEED * 1000 + r * 100 + i * 10 + j, bs, kind))
    parallel(lambda j: job(c, j), jobs)
    c.sample("400 bytes, device failed at its third write -> failure, internal error; 17 bytes -> success, own samples")


run_check(main, "S09")
