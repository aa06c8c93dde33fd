import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *
from world import *


def level(w, threads):
    """waits until the sessions have ended; -> (descriptors, threads, bytes) after the next client has been answered"""
    srv = w.srv
    wait_for(lambda: srv.threads() <= threads or not srv.alive(), 4 * RT + 15)
    srv.ping()
    def settled():
        return srv.ctl.get("accepts") > srv.ctl.get("accepted")
    wait_for(settled, 5)
    fds = sorted(re.sub(r"\[\d+\]", "", f) for f in srv.fds() if not f.endswith("/log"))
    return fds, srv.threads(), srv.ctl.get("heap")


def job(c, j):
    seed, kind, delays = j
    w = World(c, seed, kind, leaks=True, stack_kb=65536)
    w.kept = []
    srv = w.srv
    if delays:
        srv.ctl.delays(60, 500, seed=seed)
    outcomes = sorted(n for n in dir(w) if n.startswith("o_"))
    slow = ("o_timeout", "o_up_silent", "o_rx_not_reading")
    try:
        # everything has been used once
        for n in outcomes:
            if n not in slow:
                getattr(w, n)()
        time.sleep(0.3)
        base = level(w, 2)
        def check(name, times):
            now = level(w, base[1])
            c.count(1, 1)
            for what, a, b in (("descriptors", base[0], now[0]), ("threads", base[1], now[1])):
                if a != b:
                    # once more: the level must really not return
                    time.sleep(1)
                    now = level(w, base[1])
                    b = now[0] if what == "descriptors" else now[1]
                    if a != b:
                        x = "%s instead of %s" % (b, a)
                        if what == "descriptors":
                            extra = list(b)
                            for f in a:
                                if f in extra:
                                    extra.remove(f)
                            x = "%d instead of %d, left: %s" % (len(b), len(a), extra[:5])
                        c.violation("%s:%s:%s" % (what, kind, name), "%s after %d x %s: %s" % (what, times, name, x), {"seed": seed, "conf": srv.conf})
                        return False
            if now[2] > base[2]:
                time.sleep(0.5)
                now = level(w, base[1])
            c.cov["largest_heap_growth"] = max(c.cov.get("largest_heap_growth", -10**9), now[2] - base[2])
            if now[2] > base[2]:
                c.violation("memory:%s:%s" % (kind, name), "%d bytes more are allocated after %d x %s" % (now[2] - base[2], times, name), {"seed": seed, "conf": srv.conf})
                return False
            return True
        rng = w.rng
        rng.shuffle(outcomes)
        for n in outcomes:
            times = 1 if n in slow else quick(2, 6)
            for _ in range(times):
                getattr(w, n)()
                c.add("sessions")
            if not check(n, times) or not srv.alive():
                return
            for cl in w.kept:
                cl.close()
            w.kept.clear()
        # histories: many outcomes in any order, one after the other and at the same time
        for r in range(quick(6, 40)):
            names = [rng.choice([o for o in outcomes if o not in slow]) for _ in range(rng.randrange(4, 14))]
            if r % 2 and kind != "pluto":
                # (transmit sessions one after another, as the transmitter has one owner)
                errs = []
                def run(ns):
                    for n in ns:
                        try:
                            getattr(w, n)()
                        except (Gone, Quiet, OSError) as e:
                            errs.append("%s: %r" % (n, e))
                        except ValueError as e:
                            if "used" not in str(e) and "(1, 4)" not in str(e):
                                errs.append("%s: %r" % (n, e))
                rxn = [n for n in names if not n.startswith("o_tx")]
                txn = [n for n in names if n.startswith("o_tx")]
                ts = [threading.Thread(target=run, args=(x,)) for x in (rxn[::2], rxn[1::2], txn)]
                [t.start() for t in ts]
                [t.join(120) for t in ts]
                if errs:
                    raise ValueError(errs[0])
            else:
                for n in names:
                    getattr(w, n)()
            c.add("sessions", len(names))
            if not check("+".join(names), 1) or not srv.alive():
                return
    except (Gone, Quiet, ValueError, OSError) as e:
        import traceback
        c.violation("session:%s" % kind, "%r %s" % (e, traceback.format_exc().strip().split("\n")[-3:]), {"seed": seed, "conf": srv.conf})
    finally:
        for cl in w.kept:
            cl.close()
        finish_server(c, srv, kind)
        if w.up:
            w.up.stop()
        os.unlink(w.big)


def main(c):
    c.cov["rule"] = "descriptors, threads and allocated bytes compared with the level before, once per kind of session outcome and per history of outcomes; LeakSanitizer when the server ends"
    build_server(c); build_ref(c); build_iio(c)
    jobs = []
    for r in range(quick(1, 6)):
        for i, k in enumerate(["sdr", "file", "pluto", "sdr", "file", "pluto"]):
            jobs.append((SEED * 1000 + r * 10 + i, k, i >= 3))
    parallel(lambda j: job(c, j), jobs)
    c.sample("3 sessions sharing an upstream connection, left with RST; level: 4 descriptors, 2 threads, same bytes allocated")


run_check(main, "S12")
