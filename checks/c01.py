import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from srv import *

STR = ["bind_address", "base_path", "rx_file_base_path", "tx_file_base_path", "rx_sdr_server_address"]
RANGE = {"port": (0, 65535), "read_timeout_seconds": (1, 2**31 - 1), "buffer_size": (1, 2**31 - 1), "queue_size": (1, 65535), "rx_sdr_server_port": (0, 65535),
         "tx_plutosdr_timeout_millis": (0, 2**32 - 1)}
GAIN = ["tx_plutosdr_gain", "rx_plutosdr_gain"]
TYPES = {"rx_sdr_type": {"sdr-server": 0, "plutosdr": 1, "file": 2}, "tx_sdr_type": {"none": 0, "plutosdr": 1, "file": 2}}
DEF = dict(bind_address="127.0.0.1", port=8091, read_timeout_seconds=5, buffer_size=262144, queue_size=64, rx_sdr_type="sdr-server", tx_sdr_type="none",
           rx_sdr_server_address="127.0.0.1", rx_sdr_server_port=8090, tx_plutosdr_gain=0.0, rx_plutosdr_gain=0.0, tx_plutosdr_timeout_millis=10000)
ALL = STR + list(RANGE) + GAIN + list(TYPES)


class Raw:
    """a value of another type, as written"""
    def __init__(self, text):
        self.text = text


WRONG = [Raw("true"), Raw("false"), Raw("[1,2]"), Raw("(1,\"a\")"), Raw("{ a=1; }"), Raw("{}"), Raw("[]"), Raw("()")]


def render_str(rng, s):
    out = ""
    for ch in s:
        if ch in "\\\"":
            out += "\\" + ch
        elif ch == "\n":
            out += "\\n"
        elif ch == "\t":
            out += rng.choice(["\\t", "\t"])
        elif ord(ch) < 32 or rng.random() < 0.05 and ord(ch) < 127:
            out += "\\x%02x" % ord(ch)
        else:
            out += ch
        if rng.random() < 0.03:
            out += '" "'
    return '"%s"' % out


def render_int(rng, v):
    r = rng.random()
    if v > 2**31 - 1 or v < -2**31:
        return "%dL" % v     # (without the suffix libconfig itself takes it for another number)
    if r < 0.1:
        return "%dL" % v
    if r < 0.2 and v >= 0:
        return rng.choice(["0x%x", "0x%X"]) % v
    if r < 0.25 and v >= 0:
        return "+%d" % v
    return str(v)


def render_float(rng, v):
    t = repr(float(v))
    if "e" not in t and rng.random() < 0.2:
        t = "%.17e" % v
    return t


def render(rng, items):
    out = []
    for k, v in items:
        if rng.random() < 0.2:
            out.append(rng.choice(["# %s=1", "// %s=2", "/* %s=\"3\" \n port=9 */", "\n", "   "]).replace("%s", rng.choice(ALL)))
        if isinstance(v, Raw):
            t = v.text
        elif isinstance(v, str):
            t = render_str(rng, v)
        elif isinstance(v, float):
            t = render_float(rng, v)
        else:
            t = render_int(rng, v)
        out.append("%s%s%s%s" % (k, rng.choice(["=", ":", " = ", " :\n "]), t, rng.choice(["", ";", ",", " ;"])))
    if rng.random() < 0.15:
        # settings of a group are not those of the program
        out.append("other : { %s = %s; };" % (rng.choice(ALL), rng.choice(["1", "\"x\"", "true", "-7"])))
    if rng.random() < 0.1:
        out.append("unknown_setting = %s" % rng.choice(["1", "\"x\"", "[1]", "2.5"]))
    return ("\r\n" if rng.random() < 0.1 else "\n").join(out) + ("\n" if rng.random() < 0.8 else "")


def string(rng, k):
    r = rng.random()
    if r < 0.2:
        return ""
    if r < 0.5:
        return rng.choice(["127.0.0.1", "0.0.0.0", "/tmp/", "/var/lib/x", "localhost", "10.0.0.255", ".", "::1"])
    return "".join(rng.choice("abcXYZ019/._-%$ \"\\'\n\t;#={}äß\x01") for _ in range(rng.choice([1, 3, 20, 200, 3000])))


def number(rng, lo, hi):
    r = rng.random()
    if r < 0.5:
        return rng.choice([x for x in (lo, hi, lo + 1, hi - 1, 1, 2, 5, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1) if lo <= x <= hi])
    if r < 0.8:
        return rng.randrange(lo, min(hi, 10000) + 1)
    return rng.randrange(lo, hi + 1)


def outside(rng, lo, hi):
    return rng.choice([x for x in (lo - 1, hi + 1, -1, 0, -2**31, 2**31 - 1, 2**31, 2**32, 2**32 + 5, 2**32 + 8091, 65536, 65536 + 8091, 2**63 - 1, -2**63, -5, hi + 65536) if not lo <= x <= hi])


def case(rng, tmpdir):
    """-> (items, expected outcome: dict or None, or 'any' when a setting that doesn't matter here is wrong)"""
    vals, bad = {}, []
    for k in ALL:
        if rng.random() < 0.55:
            continue
        if k in STR:
            vals[k] = string(rng, k)
        elif k in RANGE:
            vals[k] = number(rng, *RANGE[k])
        elif k in GAIN:
            vals[k] = rng.choice([0, 1, -1, 10, 71, 73.5, 2**31, -2**31, 2**40, -89.75, 0.25, 1e-30, 1e300, rng.uniform(-100, 100), rng.randrange(-100, 100)])
        else:
            vals[k] = rng.choice(list(TYPES[k]))
    nbad = rng.choice([0, 0, 0, 1, 1, 2])
    for k in rng.sample(ALL, nbad):
        if k in RANGE:
            vals[k] = rng.choice([outside(rng, *RANGE[k]), outside(rng, *RANGE[k]), outside(rng, *RANGE[k]), rng.choice(WRONG), Raw('"5"'), Raw("5.0"), Raw("1e3"), Raw("0.5")])
        elif k in STR:
            vals[k] = rng.choice(WRONG + [Raw("5"), Raw("1.5"), Raw("7L")])
        elif k in GAIN:
            vals[k] = rng.choice(WRONG + [Raw('"1.5"'), Raw('""')])
        else:
            vals[k] = rng.choice(WRONG + [Raw("0"), Raw("1"), Raw("2.0"), "", "File", "files", "fil", "sdr-serve", "sdr-server ", " none", "pluto", "NONE", "none" if k == "rx_sdr_type" else "sdr-server",
                                          "plutosdr\nfile", "file" * 500])
        bad.append(k)
    items = list(vals.items())
    rng.shuffle(items)
    full = dict(DEF, base_path=tmpdir, rx_file_base_path=tmpdir, tx_file_base_path=tmpdir)
    full.update(vals)
    matters = [k for k in bad if not (k in ("rx_sdr_server_port", "rx_sdr_server_address") and full["rx_sdr_type"] != "sdr-server" or
                                      k in ("tx_plutosdr_gain", "tx_plutosdr_timeout_millis") and full["tx_sdr_type"] != "plutosdr" or
                                      k == "rx_plutosdr_gain" and full["rx_sdr_type"] != "plutosdr" or k == "rx_file_base_path" and full["rx_sdr_type"] != "file" or
                                      k == "tx_file_base_path" and full["tx_sdr_type"] != "file" or k == "tx_plutosdr_timeout_millis" and "plutosdr" not in (full["rx_sdr_type"], full["tx_sdr_type"]))]
    if "rx_sdr_type" in bad or "tx_sdr_type" in bad:
        matters = bad
    return items, None if matters else full, bad


def hexs(s):
    return "x" + s.encode("utf-8").hex()


def expected(full, bad):
    """fields of the accepted configuration that are settled"""
    e = {}
    for k in STR:
        if k not in bad:
            e[k] = hexs(full[k])
    for k in RANGE:
        if k not in bad:
            e[k] = str(full[k])
    for k in TYPES:
        e[k] = str(TYPES[k][full[k]])
    for k in GAIN:
        if k not in bad:
            e[k] = float(full[k])
    if full["rx_sdr_type"] != "sdr-server":
        e.pop("rx_sdr_server_address", None), e.pop("rx_sdr_server_port", None)
    e["iio"] = "1" if "plutosdr" in (full["rx_sdr_type"], full["tx_sdr_type"]) else "0"
    return e


def load(c, exe, paths, env, label):
    """-> {path: (outcome, fields)}"""
    e = san_env(True, env)
    if env.get("TMPDIR") is None:
        e.pop("TMPDIR", None)
    log = os.path.join(c.work, "log-" + label)
    with open(log, "wb") as lf:
        try:
            r = subprocess.run([exe], input="\n".join(paths) + "\n", stdout=subprocess.PIPE, stderr=lf, env={k: v for k, v in e.items() if v is not None}, text=True, timeout=240)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(), "timeout"
    res, last = {}, None
    for l in out.split("\n"):
        p = l.split(" ")
        if p[0] == "AT":
            last = p[1]
        elif p[0] == "R":
            res[p[1]] = (p[2], dict(f.split("=", 1) for f in p[3:] if "=" in f), " ".join(p[3:]))
        elif p[0] == "LIBS" and p[1] != p[2]:
            c.violation("library-not-closed", "opened %s times, closed %s times (%s)" % (p[1], p[2], label))
    with open(log, "rb") as f:
        reps = san_reports(f.read().decode("utf-8", "replace"))
    for k, d in reps:
        c.violation(k, "%s; last file %s: %r" % (d, last, readf(last)[:600] if last and os.path.isfile(last) else None), {"file": last})
    if rc and not reps:
        c.violation("crash:" + label, "ended with %s at %s: %r" % (rc, last, readf(last)[:600] if last and os.path.isfile(last) else None))
    return res


def model_job(c, j):
    seed, n, exe = j
    rng = random.Random(seed)
    tmpdir = rng.choice(["/tmp", "/some where/else", c.work, ""]) if rng.random() < 0.7 else None
    d = os.path.join(c.work, "m%d" % seed)
    os.mkdir(d)
    cases = {}
    for i in range(n):
        items, full, bad = case(rng, "/tmp" if tmpdir is None else tmpdir)
        p = "%s/%d.conf" % (d, i)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(render(rng, items))
        cases[p] = (full, bad)
    res = load(c, exe, list(cases), {"TMPDIR": tmpdir, "LD_LIBRARY_PATH": build_iio(c)}, "model%d" % seed)
    for p, (full, bad) in cases.items():
        c.count(1, 1)
        if p not in res:
            continue    # reported with the crash
        what, got, text = res[p]
        src = readf(p)[:3000].decode("utf-8", "replace")
        if full is None:
            c.add("refused")
            if what != "refused":
                c.violation("accepted:" + ",".join(sorted(bad)), "%s %s\n%s" % (what, text[:300], src), {"file": src})
            continue
        if what == "refused" and bad:
            c.add("irrelevant_refused")
            continue
        if what != "ok":
            c.violation("not-accepted", "%s %s\n%s" % (what, text, src), {"file": src})
            continue
        c.add("accepted")
        for k, v in expected(full, bad).items():
            g = got.get(k)
            if (float(g) != v) if isinstance(v, float) else g != v:
                c.violation("value:" + k, "%s is %s instead of %s (%s)\n%s" % (k, g, v, "stated" if k in [x for x in full] else "default", src), {"file": src})
    shutil.rmtree(d)


def garbage(rng, base):
    r = rng.random()
    b = bytearray(base)
    if r < 0.2:
        return bytes(rng.randbytes(rng.choice([0, 1, 3, 100, 5000])))
    if r < 0.4:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if r < 0.7:
        for _ in range(rng.choice([1, 2, 8, 40])):
            if b:
                k = rng.randrange(len(b))
                what = rng.random()
                if what < 0.4:
                    b[k] = rng.randrange(256)
                elif what < 0.7:
                    del b[k:k + rng.choice([1, 2, 10])]
                else:
                    b[k:k] = rng.choice([b'"', b"{", b"}", b"(", b"=", b";", b"\0", b"\\", b"\xff", b"@include \"x\"\n", b"9" * 40, b"1e999", b"0x", b"-", b"/*", b"L"])
        return bytes(b)
    return rng.choice([b"", b"\n" * 10000, b"a={" * 300, b"a=(" * 300, b'port="', b"/* unterminated", b"port=1;port=2", b"port=port", b"=5", b"port", b"port=", b"\xef\xbb\xbfport=5",
                       b'@include "/nonexistent"\n', b"queue_size=99999999999999999999999999", b"buffer_size=1e400", b"tx_plutosdr_gain=nan", b"tx_plutosdr_gain=inf",
                       b'bind_address="' + b"x" * 200000 + b'"', b"x=[" + b"1," * 50000 + b"1]", bytes(range(256))])


def garbage_job(c, j):
    """nothing but: no damage, no hang, an outcome"""
    seed, n, exe = j
    rng = random.Random(seed)
    d = os.path.join(c.work, "g%d" % seed)
    os.mkdir(d)
    paths = []
    for i in range(n):
        p = "%s/%d.conf" % (d, i)
        with open(p, "wb") as f:
            f.write(garbage(rng, render(rng, case(rng, "/tmp")[0]).encode("utf-8")))
        paths.append(p)
    # (the scanner of libconfig 1.5 itself leaks the string it is in at a syntax error)
    supp = d + "/supp"
    with open(supp, "w") as f:
        f.write("leak:libconfig_yylex\n")
    paths += [d, d + "/missing", "/dev/null", d + "/missing/dir/x", d + "/" + "x" * 3000]
    res = load(c, exe, paths, {"TMPDIR": None, "LD_LIBRARY_PATH": build_iio(c), "LSAN_OPTIONS": "report_objects=0:print_suppressions=0:suppressions=" + supp}, "garbage%d" % seed)
    for p in paths:
        c.count(1, 1)
        if p in res:
            c.add("garbage_" + res[p][0])
            if res[p][0] not in ("ok", "refused") or "kept" in res[p][2]:
                c.violation("outcome", "%s %s" % (p, res[p]))
    for p in (d, d + "/missing", d + "/missing/dir/x"):
        if p in res and res[p][0] != "refused":
            c.violation("unreadable-accepted", "%s: %s" % (p, res[p]))
    shutil.rmtree(d)


def library_job(c, exe):
    """PlutoSDR library without one of its functions, or not a library at all"""
    out = subprocess.run(["nm", "-D", "--defined-only", build_iio(c) + "/libiio.so"], stdout=subprocess.PIPE, text=True).stdout
    syms = sorted(l.split()[-1] for l in out.split("\n") if " T iio_" in l)
    if len(syms) < 20:
        raise CheckError("symbols of the stand-in library: %s" % syms)
    conf = os.path.join(c.work, "pluto.conf")
    with open(conf, "w") as f:
        f.write('tx_sdr_type="plutosdr"\n')
    conf2 = os.path.join(c.work, "pluto2.conf")
    with open(conf2, "w") as f:
        f.write('rx_sdr_type="plutosdr"\n')
    d = os.path.join(c.work, "libs")

    def one(s):
        l = os.path.join(d, s)
        os.makedirs(l)
        if s == "none":
            with open(l + "/libiio.so", "w") as f:
                f.write("this is not a library")
        else:
            with open(l + "/x.c", "w") as f:
                f.write("\n".join("int %s(void) { return 0; }" % x for x in syms if x != s))
            subprocess.run(["gcc", "-shared", "-fPIC", "-o", l + "/libiio.so", l + "/x.c"], check=True)
        res = load(c, exe, [conf, conf2, conf], {"TMPDIR": None, "LD_LIBRARY_PATH": l}, "library-" + s)
        c.count(2, 2)
        for p in (conf, conf2):
            if p in res and res[p][0] == "ok" and res[p][1].get("missing") != "0":
                c.violation("incomplete-library", "library without %s accepted" % s)
            c.add("libraries_" + (res[p][0] if p in res else "crash"))
    for s in syms + ["none"]:
        one(s)
    shutil.rmtree(d)


def start_job(c, j):
    """the program itself: a refused file ends it with a failure, an accepted one makes it listen where it says"""
    seed, i = j
    rng = random.Random(seed)
    exe = build_server(c)
    d = os.path.join(c.work, "start%d" % seed)
    os.mkdir(d)
    addr = free_addr()
    items, full, bad = case(rng, "/tmp")
    vals = dict(items)
    bindable = rng.random() < 0.85
    if bindable and full is not None:
        vals["bind_address"] = addr
        vals["port"] = rng.choice([rng.randrange(20000, 60000), 20000, 40000, 65535])
        full["bind_address"], full["port"] = addr, vals["port"]
        for k in ("port", "bind_address"):
            if k in bad:
                bad.remove(k)
    elif full is not None:
        vals["bind_address"] = rng.choice(["300.1.1.1", "not an address", "", "8.8.8.8", "::1"])
        full = None
    if vals.get("buffer_size", 0) and not isinstance(vals["buffer_size"], Raw) and vals["buffer_size"] > 100000:
        vals["buffer_size"] = 4096 if full is not None else vals["buffer_size"]
    p = d + "/server.conf"
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(render(rng, list(vals.items())))
    e = san_env(True, {"LD_LIBRARY_PATH": build_iio(c), "SRV_ROOT": c.work})
    e.pop("TMPDIR", None)
    src = readf(p)[:2000].decode("utf-8", "replace")
    with open(d + "/log", "wb") as lf:
        pr = subprocess.Popen([exe, p], stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=e, cwd=d, start_new_session=True)
        PROCS.append(pr)
        end = time.time() + 30
        listens = False
        while time.time() < end and pr.poll() is None:
            if full is not None and listening(addr, full["port"]):
                listens = True
                break
            time.sleep(0.01)
        if full is not None and not (bad and pr.poll() is not None):
            if not listens:
                c.violation("not-listening", "%s:%d, exit status %s\n%s" % (addr, full["port"], pr.poll(), src))
            else:
                pr.send_signal(signal.SIGTERM)
        elif full is None and pr.poll() is None:
            c.violation("started", "the program runs with a configuration it has to refuse\n%s" % src)
        try:
            rc = pr.wait(30)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            rc = pr.wait()
            c.violation("no-end", "killed\n%s" % src)
    with open(d + "/log", "rb") as f:
        reps = san_reports(f.read().decode("utf-8", "replace"))
    for k, det in reps:
        c.violation(k, "%s\n%s" % (det, src))
    if not reps and rc != (0 if listens else 1):
        c.violation("exit-status", "%s\n%s" % (rc, src))
    c.count(1, 1)
    c.add("program_started" if listens else "program_refused")
    shutil.rmtree(d)


def usage_job(c):
    """no argument, several arguments"""
    e = san_env(True, {})
    for args in ([], ["/nonexistent"], [c.work], [""]):
        r = subprocess.run([build_server(c)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=c.work, timeout=60)
        c.count(1, 1)
        reps = san_reports(r.stdout.decode("utf-8", "replace"))
        for k, det in reps:
            c.violation(k, det)
        if r.returncode != 1 and not reps:
            c.violation("exit-status", "arguments %s: %d" % (args, r.returncode))


def main(c):
    c.cov["rule"] = "every generated configuration file (present, absent, mistyped, out-of-range settings in every notation) gives the values of the model or a refusal; damaged files do no harm; the program starts or fails accordingly"
    build_server(c); build_iio(c)
    exe = os.path.join(c.work, "h_config")
    build(exe, "asan", ["h_config.c"], ldflags=["-Wl,--wrap=dlopen", "-Wl,--wrap=dlclose", "-Wl,--wrap=dlsym"])
    jobs = [(usage_job,), (library_job, exe)]
    s = SEED * 10000
    for i in range(quick(16, 200)):
        jobs.append((model_job, (s + i, 250, exe)))
    for i in range(quick(8, 100)):
        jobs.append((garbage_job, (s + 1000 + i, 150, exe)))
    for i in range(quick(60, 1000)):
        jobs.append((start_job, (s + 2000 + i, i)))
    parallel(lambda x: x[0](c, *x[1:]), jobs)
    c.sample("port=65536 and port=65536L and port=\"8091\": refused; port=0x1F9B: 8091; absent: 8091")


run_check(main, "C01")
