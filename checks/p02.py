import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *


def last_attrs(srv):
    """attribute -> value written last; order of events"""
    out, tl = {}, None
    for l in readf(srv.iio + "/log").decode("latin1").split("\n"):
        if l.startswith("attr ") and "=" in l:
            k, v = l[5:].rsplit("=", 1)
            out[k] = v
        elif l.startswith("timeout "):
            tl = l[8:]
    return out, tl


def server_job(c, seed):
    """requests of clients arrive at the device as they were stated"""
    rng = random.Random(seed)
    conf = dict(tx_plutosdr_gain=rng.choice([0.0, -10.5, -89.75, 3]), rx_plutosdr_gain=rng.choice([0.0, 40.5, 71, -1.25]), tx_plutosdr_timeout_millis=rng.choice([1, 250, 10000, 3000000000]))
    extra = {k: v for k, v in conf.items() if rng.random() < 0.8}
    conf = dict(dict(tx_plutosdr_gain=0.0, rx_plutosdr_gain=0.0, tx_plutosdr_timeout_millis=10000), **extra)
    # libconfig needs the suffix
    text = {k: v for k, v in extra.items() if not (isinstance(v, int) and v > 2**31 - 1)}
    if len(text) != len(extra):
        conf["tx_plutosdr_timeout_millis"] = 10000
    srv = Server(c, iio=True, tx_sdr_type="plutosdr", rx_sdr_type="plutosdr", buffer_size=512, read_timeout_seconds=2, leaks=True, **text)
    with open(srv.iio + "/rx", "wb") as f:
        f.write(rng.randbytes(4000))
    label = "server"
    tx_open = None
    try:
        for k in range(quick(8, 30)):
            tx = rng.random() < 0.5
            fs = rng.choice([520834, 600000, 1041667, 1500000, 2083333, 2083334, 3000000, 5000000])
            center = rng.choice([rng.randrange(70000000, 4294967295), 4294967296 + rng.randrange(1700000000), 437525000])
            off = rng.choice([0, 0, 12345, -54321, 1000000])
            baud = fs // rng.choice([5, 10, 20])
            if tx:
                if tx_open:
                    tx_open.shutdown_session(); tx_open.close(); tx_open = None
                cl, r = open_device(srv, T_TX, tx_body(center=center, fs=fs, baud=baud, offset=off, fsk=dict(dev=baud // 2)))
            else:
                cl, r = open_device(srv, T_RX, rx_body(center=center, fs=fs, baud=baud, offset=off, dec=1, fsk=dict(dev=baud // 2, tw=fs // 10, dc=rng.random() < 0.5)))
            what = "%s center=%d rate=%d offset=%d gain=%s" % ("tx" if tx else "rx", center, fs, off, conf["tx_plutosdr_gain" if tx else "rx_plutosdr_gain"])
            if r[0] != OK:
                c.violation("server:refused", "%s: %s" % (what, r), {"seed": seed})
                break
            a, timeout = last_attrs(srv)
            d = "out" if tx else "in"
            # the offset of a transmission is part of its samples
            want = {"dev1 out:altvoltage%d frequency" % (1 if tx else 0): center if tx else center + off, "dev1 %s:voltage0 rf_bandwidth" % d: fs, "dev1 %s:voltage0 sampling_frequency" % d: fs,
                    "dev1 %s:voltage0 hardwaregain" % d: conf["tx_plutosdr_gain" if tx else "rx_plutosdr_gain"]}
            if tx:
                want["dev1 out:altvoltage1 powerdown"] = 0
            else:
                # a receiver that is alone powers the transmitter down, another one leaves it alone
                if tx_open:
                    want["dev1 out:altvoltage1 powerdown"] = 0
                elif k == 0:
                    want["dev1 out:altvoltage1 powerdown"] = 1
            for n, v in want.items():
                if n not in a or float(a[n]) != float(v):
                    c.violation("server:%s" % n.split(" ")[-1], "%s: %s is %s instead of %s" % (what, n, a.get(n), v), {"seed": seed})
            if timeout != str(conf["tx_plutosdr_timeout_millis"]):
                c.violation("server:timeout", "%s instead of %s" % (timeout, conf["tx_plutosdr_timeout_millis"]))
            c.count(1, 1)
            c.add("server_requests")
            if tx and rng.random() < 0.6:
                tx_open = cl
            else:
                cl.shutdown_session(); cl.close()
        if tx_open:
            tx_open.close()
    except (Gone, Quiet, ValueError, OSError) as e:
        c.violation("server:session", repr(e), {"seed": seed})
    finish_server(c, srv, label)


def main(c):
    c.cov["rule"] = ("every library call and allocation of every set-up of the run fails once (only that time and for good), beside other sessions and after past ones; attributes, context life and "
                     "releases checked at the library boundary; refusals; random orders of opening and closing; requests to the real server against the attributes written; non-trivial: refused set-ups and histories")
    c.assumptions = ["the library and the device behave like the stand-in (rates below the limit need the filter, buffers move with every transfer, one context per device)"]
    exe = build(os.path.join(c.work, "h"), "asan", ["h_pluto.c"], ldflags=["-Wl,--wrap=malloc"])
    build_server(c); build_iio(c)
    n = quick(150, 2500)
    parallel(lambda k: run_harness(c, exe, ["setup", SEED, k * 100000, n], quick(200, 1500), leaks=True, hang_key="pluto:hang", label="setup"), range(8))
    parallel(lambda k: server_job(c, SEED * 100 + k), range(quick(16, 60)))


run_check(main, "P02")
