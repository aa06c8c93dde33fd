import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

# sampling rate, baud, deviation
FILE_MODES = [(48000, 4800, 5000), (48000, 9600, -2400), (9600, 4800, 1200), (48000, 1200, 600), (50000, 4800, 5000), (4800, 2400, 2000), (44100, 9600, 3000)]
PLUTO_MODES = [(600000, 100000, 25000), (1000000, 100000, -50000), (2400000, 240000, 60000)]


def split(rng, data, bs, kind):
    """the data of a session cut into transmit messages"""
    if kind == "one":
        return [data]
    if kind == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    out, p = [], 0
    while p < len(data):
        n = rng.choice([1, 2, 3, 16, 100, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1, rng.randrange(1, 700)])
        n = max(1, min(n, 32000))
        out.append(data[p:p + n])
        p += n
    return out


def session(c, srv, k, seed, pluto):
    rng = random.Random(seed)
    bs = srv.conf["buffer_size"]
    fs, baud, dev = rng.choice(PLUTO_MODES if pluto else FILE_MODES)
    kind = rng.choice(["one", "bytes", "random", "random", "random"])
    n = rng.choice([1, 2, bs, bs + 1, 40, 300, 1500]) if kind != "bytes" else rng.choice([5, 60, 150])
    n = max(1, min(n, 31000, 400000 // max(1, 8 * fs // baud)))
    data = rng.choice([rng.randbytes(n), rng.randbytes(n), bytes(n), b"\xff" * n, b"\x55" * n])
    k2 = rng.random()
    dop = dict(DOPPLER, alt=rng.choice([0, 2500, 88000, 30000000]), lon=rng.choice([DOPPLER["lon"], DOPPLER["lon"], 3599999999])) if k2 < 0.2 else None
    offset = rng.choice([0, 0, 1000, -2500, 12345 % (fs // 4)])
    if dop and rng.random() < 0.3:
        offset = rng.choice([100001, -250003, 1234567, -9876543])    # aliases, but exactly
    dump = rng.random() < 0.5
    path = os.path.join(srv.dir, "tx-%d" % k)
    req = dict(fs=fs, baud=baud, fsk=dict(dev=dev), offset=offset, dump=dump, doppler=dop, file=dict(filename=path, start=TLE_START))
    parts = split(rng, data, bs, kind)
    label = "%s: buffer %d, rate %d/%d, %d bytes in %d messages, offset %d%s%s" % ("plutosdr" if pluto else "file", bs, fs, baud, n, len(parts), offset, ", doppler" if dop else "", ", dump" if dump else "")

    def viol(key, det):
        c.violation("%s:%s" % (key, "plutosdr" if pluto else "file"), "%s: %s" % (label, det), {"seed": seed, "req": req, "parts": [len(p) for p in parts][:60], "conf": srv.conf})

    before = os.path.getsize(srv.iio + "/tx") if pluto and os.path.exists(srv.iio + "/tx") else 0
    try:
        cl, r = open_device(srv, T_TX, tx_body(**req))
        if r[0] != OK:
            return viol("open", "valid request answered with %s" % (r,))
        how = rng.choice(["lockstep", "pipelined"])
        if how == "lockstep":
            for i, p in enumerate(parts):
                cl.send(tx_data(p))
                r = cl.response()
                if r != (OK, 0):
                    return viol("response", "message %d answered with %s" % (i, r))
        else:
            th = threading.Thread(target=lambda: [cl.send(tx_data(p)) for p in parts], daemon=True)
            th.start()
            for i in range(len(parts)):
                r = cl.response()
                if r != (OK, 0):
                    return viol("response", "message %d answered with %s" % (i, r))
            th.join()
        # everything acknowledged has been given to the transmitter
        acked = readf(srv.iio + "/tx")[before:] if pluto else readf(path)
        cl.shutdown_session()
        rest = cl.read_to_end()
        if rest:
            viol("response", "additional bytes %s" % rest[:30].hex())
    except (Gone, Quiet, ValueError, OSError) as e:
        return viol("session", repr(e))
    cl.close()
    want = ref_mod(c, data, req, bs if dop else 0)
    c.count(1, 1)
    c.add("samples_checked", len(want) // 8)
    c.add("sessions_" + ("plutosdr" if pluto else "file"))
    c.add("messages", len(parts))
    final = readf(srv.iio + "/tx")[before:] if pluto else readf(path)
    if final != acked:
        viol("late-or-lost", "%d samples at the device when the last message was acknowledged, %d at the end of the session" % (len(acked) // (4 if pluto else 8), len(final) // (4 if pluto else 8)))
    d = None
    if dump:
        # everything of a session is completed when the next client has been answered
        try:
            wait_for(lambda: srv.threads() <= 2, 5)
            srv.ping()
        except (Gone, Quiet, ValueError, OSError) as e:
            return viol("ping", repr(e))
        wait_for(lambda: len(srv.dump("mod2sdr", cl.id) or b"") >= len(want), 1)
        d = srv.dump("mod2sdr", cl.id)
        if d is None:
            return viol("dump-missing", "no dump file")
        if pluto:
            i = compare(c, "near16", final, d, 1)
            if i is not None:
                viol("dump", "transmitted samples and dump: " + i)
        elif d != final:
            viol("dump", "dump differs from the transmitted samples: " + diff_text(d, final, 8))
        os.unlink(os.path.join(srv.out, "tx.mod2sdr.%d.cf32" % cl.id))
        c.add("dumps")
    elif srv.dump("mod2sdr", cl.id) is not None:
        viol("dump-not-requested", "a dump was written")
    if dop:
        # the applied frequency may differ by the drift within a buffer
        dur = max(min(len(p), bs) for p in parts) * 8 * (fs // baud) / fs
        d = compare(c, "steps", final, want, 2 * math.pi * 80 * (dur + 1.2) / fs + (2e-4 if pluto else 2e-5), 16 if pluto else 32)
        c.add("doppler_sessions")
    elif pluto:
        d = compare(c, "near16", final, want, 80 if offset else 1)
    elif offset:
        d = compare(c, "near", final, want, 2e-3)
    else:
        d = None if final == want else diff_text(final, want, 8)
    if d:
        viol("samples", d)



def job(c, j):
    seed, bs, pluto, delays = j
    srv = Server(c, iio=pluto, tx_sdr_type="plutosdr" if pluto else "file", buffer_size=bs, stale=60 if seed % 3 else 0, read_timeout_seconds=2)
    if delays:
        srv.ctl.delays(80, 400, seed=seed)
        srv.ctl.set("short_io", [1, 4, 100, 0][seed % 4])
    for k in range(quick(10, 40) if not pluto else quick(8, 30)):
        session(c, srv, k, seed * 1000 + k, pluto)
        if not srv.alive() or len(c.viol) > 5:
            break
    if pluto and srv.alive():
        log = readf(srv.iio + "/log").decode()
        if "overrun" in log:
            c.violation("device-overrun", [l for l in log.split("\n") if "overrun" in l][0])
    finish_server(c, srv, "buffer %d" % bs)


def main(c):
    c.cov["rule"] = "one transmit session per evaluation, random data, message sizes, parameters; samples at the device (file or 16-bit stand-in of libiio) and dump compared with the modulation of the whole data"
    build_server(c); build_ref(c); build_iio(c)
    jobs = []
    for r in range(quick(4, 12)):
        for i, bs in enumerate([1, 2, 7, 16, 100, 1000, 2048, 4096, 20000, 262144]):
            jobs.append((SEED * 1000 + r * 50 + i, bs, False, (i + r) % 2 == 1))
        for i, bs in enumerate([1, 3, 512, 1024, 5000]):
            jobs.append((SEED * 1000 + r * 50 + 20 + i, bs, True, (i + r) % 2 == 1))
    parallel(lambda j: job(c, j), jobs)
    c.sample("file: buffer 7, rate 48000/9600, 300 bytes in 12 messages, offset -2500, dump")


run_check(main, "S08")
