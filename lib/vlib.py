"""Shared machinery of the checks: building /repo's current sources with instrumentation, running harnesses and
servers, matching violations against known findings, writing evidence."""
import atexit, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".cache")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JOBS = max(2, min(8, os.cpu_count() or 4))

SAN = {
    # clang: gcc's AddressSanitizer doesn't see stores of complex numbers
    "asan": ["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=pointer-overflow,function", "-fno-sanitize-recover=all"],
    "tsan": ["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["gcc", "-O2", "-g"],
}
# unsigned/implicit conversions are deliberately not flagged: they are defined behaviour
# the project is built as strict C99: feature macros change what library functions do (signal(), for example)
COMMON = ["-std=c99", "-w", "-pthread"]


PROCS = []                      # what is ended with the check (each leads a process group)


class CheckError(Exception):
    """The check itself could not run (no verdict)."""


def quick(q, t):
    """case counts: quick tier, thorough tier"""
    return t if THOROUGH else q


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.viol = []          # (key, detail, replay dict)
        self.known_hit = {}
        self.inconclusive = []
        self.work = tempfile.mkdtemp(prefix="%s-" % prop, dir=_workroot())
        atexit.register(shutil.rmtree, self.work, True)
        self.known = load_known(prop)
        self.finishing = threading.Lock()

    def watchdog(self):
        """a violation is reported in time, even if what is left to do takes long because of it"""
        limit = quick(150, 1500)
        while True:
            time.sleep(1)
            if self.viol and time.time() - self.t0 > limit:
                self.finish()

    # ---- coverage
    def count(self, n=1, distinct=0):
        self.cov["evaluations"] += n
        self.cov["distinct_nontrivial"] += distinct

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, text):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(str(text)[:600])

    # ---- verdicts
    def violation(self, key, detail, replay=None):
        for k in self.known:
            if fnmatch.fnmatchcase(key, k["match"]):
                self.known_hit.setdefault(k["match"], (k, detail))
                return
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, detail, replay))

    def finish(self):
        if not self.finishing.acquire(False):
            time.sleep(1e6)     # the other thread ends the process
        for p in PROCS:
            try:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": dict(self.cov), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.inconclusive:
            ev["coverage"]["inconclusive"] = self.inconclusive[:20]
        evd = os.path.join(VERIF, "evidence") if REPO == "/repo" else _workroot()
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for m, (k, detail) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.viol:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (key, detail, replay) in enumerate(self.viol[:10]):
                path = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": key, "detail": detail, "seed": SEED, "tier": TIER,
                               "replay": replay}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s: %s" % (key, str(detail)[:1500]))
            sys.stdout.flush()
            shutil.rmtree(self.work, True)
            os._exit(1)
        if self.cov["evaluations"] == 0:
            print("nothing was observed: no verdict")
            os._exit(3)
        if self.inconclusive:
            print("inconclusive parts: %s" % self.inconclusive[:5])
        print("OK property=%s evaluations=%d wall=%.1fs" % (self.prop, self.cov["evaluations"], time.time() - self.t0))
        sys.stdout.flush()
        shutil.rmtree(self.work, True)
        os._exit(0)


def run_check(main, prop, level="exploration"):
    c = None
    try:
        c = Check(prop, level)
        threading.Thread(target=c.watchdog, daemon=True).start()
        main(c)
    except CheckError as e:
        if c is None or not c.viol:
            print("CHECK-ERROR property=%s %s" % (prop, e))
            sys.stdout.flush()
            if c: shutil.rmtree(c.work, True)
            os._exit(3)
    except Exception:
        import traceback
        traceback.print_exc()
        if c is None or not c.viol:
            sys.stdout.flush(); sys.stderr.flush()
            if c: shutil.rmtree(c.work, True)
            os._exit(3)
    c.finish()


def _workroot():
    d = os.path.join(VERIF, ".work")
    os.makedirs(d, exist_ok=True)
    return d


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            k = json.loads(line)
            if k.get("property") == prop and k.get("status") == "known":
                out.append(k)
    return out


# ------------------------------------------------------------------ building
def _headers_hash():
    h = hashlib.sha256()
    for root in (SRC, HARN):
        for p in sorted(glob.glob(root + "/**/*.h", recursive=True)):
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


_hh = None


def _compile(args):
    src, cmd = args
    global _hh
    if _hh is None:
        _hh = _headers_hash()
    key = hashlib.sha256((_hh + " ".join(cmd) + src).encode() + open(src, "rb").read()).hexdigest()
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), id(args) & 0xffff)
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, "%s\n%s" % (src, r.stdout[-3000:])
    os.replace(tmp, obj)
    return obj, None


def _prune():
    try:
        fs = sorted(glob.glob(CACHE + "/*"), key=os.path.getmtime)
        size = sum(os.path.getsize(f) for f in fs)
        while size > 600e6 and fs:
            f = fs.pop(0)
            size -= os.path.getsize(f)
            os.unlink(f)
    except OSError:
        pass


def repo_sources(with_main=False, exclude=()):
    out = []
    for p in sorted(glob.glob(SRC + "/**/*.c", recursive=True)):
        rel = os.path.relpath(p, SRC)
        if rel == "main.c" and not with_main:
            continue
        if rel in exclude:
            continue
        out.append(p)
    return out


def build(out, kind, harness, with_main=False, exclude=(), cflags=(), ldflags=(), volk="shim", repo_cflags=()):
    """Builds harness files (names in /verif/harness) with all of /repo/src (minus exclude) into `out`."""
    os.makedirs(CACHE, exist_ok=True)
    _prune()
    base = SAN[kind] + COMMON + ["-I", SRC, "-I", HARN]
    jobs = []
    for s in repo_sources(with_main, exclude):
        jobs.append((s, base + list(repo_cflags)))
    hs = list(harness) + (["volk_shim.c"] if volk == "shim" else [])
    for h in hs:
        p = h if h.startswith("/") else os.path.join(HARN, h)
        jobs.append((p, base + ["-std=gnu11", "-D_GNU_SOURCE"] + list(cflags)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(_compile, jobs))
    errs = [e for _, e in res if e]
    if errs:
        raise CheckError("compilation failed: " + errs[0])
    cmd = [SAN[kind][0]] + [f for f in SAN[kind][1:] if f.startswith("-f")] + ["-pthread", "-o", out] + [o for o, _ in res] + \
        list(ldflags) + ["-rdynamic", "-lvolk", "-lconfig", "-lprotobuf-c", "-lm", "-ldl"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("link failed: " + r.stdout[-3000:])
    return out


# ------------------------------------------------------------------ sanitizer reports
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:max_allocation_size_mb=8000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
    "LSAN_OPTIONS": "report_objects=0",
}


def san_env(leaks=False, extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"] % (1 if leaks else 0)
    e["UBSAN_OPTIONS"] = SAN_ENV["UBSAN_OPTIONS"]
    e["TSAN_OPTIONS"] = SAN_ENV["TSAN_OPTIONS"]
    e["LSAN_OPTIONS"] = SAN_ENV["LSAN_OPTIONS"]
    e["VOLK_GENERIC"] = "1"
    e.pop("VOLK_ALIGNMENT", None)
    if extra:
        e.update(extra)
    return e


_frame = re.compile(r"#\d+\s+(?:0x[0-9a-f]+ in )?(\S+)\s+(\S+)")


def _first_repo_frame(block):
    for m in _frame.finditer(block):
        if "/src/" in m.group(2) and "/harness/" not in m.group(2):
            return m.group(1)
    m = _frame.search(block)
    return m.group(1) if m else "?"


def san_reports(text):
    """-> list of (key, excerpt) of all sanitizer reports in a log"""
    out = []
    for m in re.finditer(r"==\d+==ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", text):
        block = text[m.start():m.start() + 6000]
        if m.group(1) == "LeakSanitizer":
            for lm in re.finditer(r"(Direct leak of[^\n]*\n(?:\s+#[^\n]*\n)+)", text[m.start():]):
                out.append(("leak:" + _first_repo_frame(lm.group(1)), lm.group(1)[:1500]))
            if not any(k.startswith("leak:") for k, _ in out):
                out.append(("leak:?", block[:1500]))
        else:
            kind = m.group(2).split()[0].rstrip(":")
            if "on unknown address" in m.group(2) and "SEGV" in m.group(2):
                kind = "SEGV"
            out.append(("asan:%s:%s" % (kind, _first_repo_frame(block)), block[:2500]))
    # (the program logs what clients send: no regular expression over the whole text)
    at = text.find(": runtime error: ")
    while at >= 0:
        start = max(text.rfind("\n", 0, at) + 1, at - 300)
        m = re.compile(r"([^\s:]+):(\d+):\d+: runtime error: ([^\n]*)").search(text, start)
        at = text.find(": runtime error: ", at + 10)
        if not m:
            continue
        block = text[m.start():m.start() + 3000]
        kind = re.sub(r"[-+0-9.e]+|'[^']*'|0x[0-9a-f]+", "", m.group(3))[:60].strip().replace(" ", "_")
        out.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), kind), block[:1500]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]*)[^\n]*\n(.*?)={18}", text, re.S):
        kind = m.group(1).strip().replace(" ", "-")
        block = m.group(2)
        parts = re.split(r"\n\s*\n", block)
        fr = []
        for p in parts[:2]:
            fr.append(_first_repo_frame(p))
        out.append(("tsan:%s:%s" % (kind, "|".join(sorted(fr))), block[:3500]))
    return out


# ------------------------------------------------------------------ running C harnesses
def run_harness(c, exe, args, timeout, env=None, leaks=False, hang_key=None, label="", stdin=None, retry_hang=True):
    """Runs a harness that speaks the line protocol of harness/vh.h. Violations go to c. Returns (stats, ok)."""
    e = san_env(leaks)
    if env:
        e.update(env)
    logp = os.path.join(c.work, "stderr-%d.log" % (time.time_ns() % 10**9))
    cmd = [exe] + [str(a) for a in args]
    timed_out = False
    with open(logp, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=lf, env=e, cwd=c.work, start_new_session=True)
        PROCS.append(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
    out = out.decode("utf-8", "replace")
    with open(logp, "rb") as f:
        f.seek(0, 2); sz = f.tell(); f.seek(max(0, sz - 16000000))
        err = f.read().decode("utf-8", "replace")
    os.unlink(logp)
    stats, done, last = {}, False, ""
    for line in out.split("\n"):
        if line.startswith("EV "):
            _, k, v = line.split(" ", 2)
            stats[k] = stats.get(k, 0) + int(v)
        elif line.startswith("SAMPLE "):
            c.sample(line[7:])
        elif line.startswith("CASE "):
            last = line[5:]
        elif line.startswith("VIOL "):
            key, _, det = line[5:].partition("\t")
            c.violation(key, det, {"cmd": cmd, "label": label, "case": last})
        elif line.startswith("INCONCLUSIVE "):
            c.inconclusive.append(line[13:])
        elif line == "DONE":
            done = True
    for k, v in stats.items():
        if k == "evaluations":
            c.cov["evaluations"] += v
        elif k == "distinct":
            c.cov["distinct_nontrivial"] += v
        else:
            c.add(k, v)
    reps = san_reports(err)
    for key, det in reps:
        c.violation(key, det, {"cmd": cmd, "label": label, "case": last})
    if timed_out and not reps:
        if retry_hang and not c.viol and time.time() - c.t0 < 300:
            return run_harness(c, exe, args, timeout * 2, env, leaks, hang_key, label, stdin, False)
        if hang_key:
            c.violation(hang_key, "no end after %ds; last case %s" % (timeout, last), {"cmd": cmd, "case": last})
        else:
            c.inconclusive.append("timeout %s" % " ".join(cmd))
        return stats, False
    if not done and not reps:
        rc = p.returncode
        if rc == 77:
            raise CheckError("harness set-up failed: %s %s" % (" ".join(cmd), err[-1500:]))
        c.violation("crash:%s:%s" % (label or os.path.basename(exe), rc),
                    "ended with %s; last case %s; %s" % (rc, last, err[-1500:]), {"cmd": cmd, "case": last})
    return stats, done and not reps


def parallel(fn, items, n=JOBS):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
