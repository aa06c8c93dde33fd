"""Driving the real server: instrumented builds, control file, clients, a scripted upstream SDR server, references."""
import array, ctypes, errno, mmap, os, random, re, signal, socket, struct, subprocess, threading, time
from vlib import *

WRAPS = ["malloc", "calloc", "realloc", "posix_memalign", "strdup", "protobuf_c_message_unpack", "pthread_create",
         "pthread_mutex_lock", "pthread_mutex_unlock", "fopen", "fwrite", "socket", "setsockopt", "connect", "accept",
         "recv", "write", "send", "shutdown", "close"]
F_ALLOC, F_THREAD, F_FILE, F_FWRITE, F_SOCKET, F_IO, F_IIO, F_REFILL = 1, 2, 4, 8, 16, 32, 64, 128
D_LOCK, D_UNLOCK, D_IO, D_START = 1, 2, 4, 8
T_RX, T_SHUTDOWN, T_RESPONSE, T_PING, T_TXDATA, T_TX = range(6)
OK, FAIL = 0, 1
INVALID, INTERNAL, TX_USED, RX_USED = 1, 3, 4, 5

_libc = ctypes.CDLL(None, use_errno=True)
_bl = threading.Lock()
_built = {}


def build_server(c, kind="asan"):
    with _bl:
        if kind not in _built:
            out = os.path.join(c.work, "server-" + kind)
            build(out, kind, ["srv_ctl.c"], with_main=True, ldflags=["-Wl,--wrap=" + w for w in WRAPS])
            _built[kind] = out
        return _built[kind]


def build_ref(c):
    with _bl:
        if "ref" not in _built:
            out = os.path.join(c.work, "h_ref")
            build(out, "plain", ["h_ref.c"])
            _built["ref"] = out
        return _built["ref"]


def build_iio(c):
    with _bl:
        if "iio" not in _built:
            d = os.path.join(c.work, "iiolib")
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["gcc", "-O1", "-g", "-w", "-shared", "-fPIC", "-o", d + "/libiio.so", os.path.join(HARN, "fake_iio.c"), "-ldl", "-pthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("fake libiio: " + r.stdout)
            _built["iio"] = d
        return _built["iio"]


# ------------------------------------------------------------------ addresses
_ap = [0]
_al = threading.Lock()
_base = None


def free_addr():
    """an address and two ports nobody uses (loopback /8, one address per server)"""
    global _base
    with _al:
        if _base is None:
            # addresses of concurrently running checks must not clash
            _base = (os.getpid() * 7919 + int(time.time() * 1000)) % 60000
        _ap[0] += 1
        n = (_base + _ap[0]) % 64000
        return "127.%d.%d.%d" % (100 + (os.getpid() % 100), n // 250 + 1, n % 250 + 1)


# ------------------------------------------------------------------ protobuf
def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def fint(f, v):
    return varint(f << 3) + varint(int(v))


def fbytes(f, b):
    if isinstance(b, str):
        b = b.encode()
    return varint(f << 3 | 2) + varint(len(b)) + b


def doppler_msg(d):
    return b"".join(fbytes(1, t) for t in d["tle"]) + fint(2, d["lat"]) + fint(3, d["lon"]) + fint(4, d["alt"])


def file_msg(f):
    return fbytes(1, f["filename"]) + fint(2, f.get("start", 0))


RX_DEF = dict(center=437525000, fs=48000, dump=False, offset=0, type=1, baud=4800, dec=2, dest=1, doppler=None,
              fsk=dict(dev=5000, tw=2000, dc=True), file=None)
TX_DEF = dict(center=437525000, fs=48000, dump=False, offset=0, type=1, baud=4800, doppler=None, fsk=dict(dev=5000), file=None)


def rx_body(omit=(), extra=b"", **kw):
    """omit: names of fields that are left out"""
    p = dict(RX_DEF)
    p.update(kw)
    parts = [("center", fint(1, p["center"])), ("fs", fint(2, p["fs"])), ("dump", fint(3, p["dump"])), ("offset", fint(4, p["offset"])),
             ("type", fint(5, p["type"])), ("baud", fint(6, p["baud"])), ("dec", fint(7, p["dec"])), ("dest", fint(8, p["dest"]))]
    if p["doppler"]:
        parts.append(("doppler", fbytes(9, doppler_msg(p["doppler"]))))
    if p["fsk"]:
        f = p["fsk"]
        parts.append(("fsk", fbytes(10, b"" .join(x for n, x in (("dev", fint(1, f["dev"])), ("tw", fint(2, f["tw"])), ("dc", fint(3, f["dc"]))) if "fsk." + n not in omit))))
    if p["file"]:
        parts.append(("file", fbytes(11, file_msg(p["file"]))))
    return b"".join(b for n, b in parts if n not in omit) + extra


def tx_body(omit=(), extra=b"", **kw):
    p = dict(TX_DEF)
    p.update(kw)
    parts = [("center", fint(1, p["center"])), ("fs", fint(2, p["fs"])), ("dump", fint(3, p["dump"])), ("offset", fint(4, p["offset"])),
             ("type", fint(5, p["type"])), ("baud", fint(6, p["baud"]))]
    if p["doppler"]:
        parts.append(("doppler", fbytes(7, doppler_msg(p["doppler"]))))
    if p["fsk"]:
        parts.append(("fsk", fbytes(8, fint(1, p["fsk"]["dev"]) if "fsk.dev" not in omit else b"")))
    if p["file"]:
        parts.append(("file", fbytes(9, file_msg(p["file"]))))
    return b"".join(b for n, b in parts if n not in omit) + extra


def msg(t, body=b"", version=0, length=None):
    return struct.pack(">BBI", version, t, len(body) if length is None else length) + body


def tx_data(b):
    return msg(T_TXDATA, fbytes(1, b))


def parse_response(body):
    """-> (status, details) or None if it isn't a well-formed Response"""
    i, out = 0, {}
    while i < len(body):
        tag = body[i]
        i += 1
        if tag not in (0x08, 0x10):
            return None
        v = s = 0
        while True:
            if i >= len(body):
                return None
            b = body[i]
            i += 1
            v |= (b & 0x7f) << s
            s += 7
            if not b & 0x80:
                break
        out[tag >> 3] = v
    if set(out) != {1, 2}:
        return None
    return out[1], out[2]


class Gone(Exception):
    """the peer has closed the connection"""


class Quiet(Exception):
    """nothing arrived in time"""


class Client:
    def __init__(self, srv, timeout=20.0, rcvbuf=None, connect=True):
        self.srv = srv
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        self.id = None
        if connect:
            try:
                self.s.connect((srv.addr, srv.port))
            except OSError as e:
                raise Gone("connection refused: %r" % e)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def send(self, b):
        self.s.sendall(b)

    def send_parts(self, b, cuts, pause=0.0):
        prev = 0
        for x in list(cuts) + [len(b)]:
            self.s.sendall(b[prev:x])
            prev = x
            if pause:
                time.sleep(pause)

    def recv_exact(self, n):
        out = bytearray()
        while len(out) < n:
            try:
                d = self.s.recv(n - len(out))
            except socket.timeout:
                raise Quiet("got %d of %d bytes" % (len(out), n))
            except (ConnectionResetError, BrokenPipeError):
                raise Gone("reset after %d of %d bytes: %s" % (len(out), n, bytes(out[:16]).hex()))
            if not d:
                raise Gone("closed after %d of %d bytes: %s" % (len(out), n, bytes(out[:16]).hex()))
            out += d
        return bytes(out)

    def response(self):
        """one response message: (status, details); ValueError if it's malformed"""
        h = self.recv_exact(6)
        v, t, n = struct.unpack(">BBI", h)
        if v != 0 or t != T_RESPONSE or n > 64:
            raise ValueError("not a response: %s" % h.hex())
        b = self.recv_exact(n)
        r = parse_response(b)
        if r is None:
            raise ValueError("malformed response: %s %s" % (h.hex(), b.hex()))
        return r

    def open(self, t, body):
        self.send(msg(t, body))
        r = self.response()
        if r[0] == OK:
            self.id = r[1]
        return r

    def read_to_end(self, limit=1 << 28):
        out = bytearray()
        while len(out) < limit:
            try:
                d = self.s.recv(1 << 16)
            except socket.timeout:
                raise Quiet("still open after %d bytes" % len(out))
            except (ConnectionResetError, BrokenPipeError):
                break
            if not d:
                break
            out += d
        return bytes(out)

    def shutdown_session(self):
        self.send(msg(T_SHUTDOWN))

    def close(self, abort=False):
        try:
            if abort:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
        except OSError:
            pass


class Reader(threading.Thread):
    """collects everything a client receives after the response"""
    def __init__(self, client):
        super().__init__(daemon=True)
        self.c, self.data, self.ended, self.stopped = client, bytearray(), False, False
        self.cond = threading.Condition()
        self.last = time.time()
        client.s.settimeout(0.5)
        self.start()

    def run(self):
        while not self.stopped:
            try:
                d = self.c.s.recv(1 << 16)
            except socket.timeout:
                continue
            except OSError:
                d = b""
            with self.cond:
                if not d:
                    self.ended = True
                    self.cond.notify_all()
                    return
                self.data += d
                self.last = time.time()
                self.cond.notify_all()

    def wait_len(self, n, timeout):
        end = time.time() + timeout
        with self.cond:
            while len(self.data) < n and not self.ended and time.time() < end:
                self.cond.wait(min(0.5, max(0.01, end - time.time())))
            return len(self.data) >= n

    def wait_end(self, timeout):
        end = time.time() + timeout
        with self.cond:
            while not self.ended and time.time() < end:
                self.cond.wait(min(0.5, max(0.01, end - time.time())))
            return self.ended


# ------------------------------------------------------------------ control file
class Ctl:
    SIZE = 160
    OFF = dict(armed=0, kinds=4, nth=8, burst=12, seen=16, fired=20, delay_prob=64, delay_us=68, delay_mask=72, seed=76,
               threads_seen=80, delays=84, accepts=88, accepted=92, threads=96, ebadf=100, short_io=152, sndbuf=156)

    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.write(b"\0" * self.SIZE)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), self.SIZE)

    def get(self, name):
        if name == "heap":
            return struct.unpack_from("<Q", self.m, 104)[0]
        if name == "name":
            return self.m[24:64].split(b"\0")[0].decode("latin1")
        if name == "ebadf_name":
            return self.m[112:152].split(b"\0")[0].decode("latin1")
        return struct.unpack_from("<I", self.m, self.OFF[name])[0]

    def set(self, name, v):
        struct.pack_into("<I", self.m, self.OFF[name], v)

    def arm(self, kinds, nth, burst=0):
        self.set("armed", 0)
        self.set("kinds", kinds); self.set("nth", nth); self.set("burst", burst); self.set("seen", 0); self.set("fired", 0)
        self.m[24:64] = b"\0" * 40
        self.set("armed", 1)

    def disarm(self):
        self.set("armed", 0)
        return self.get("fired"), self.get("name"), self.get("seen")

    def delays(self, prob, us, mask=15, seed=1):
        self.set("seed", seed); self.set("delay_us", us); self.set("delay_mask", mask); self.set("delay_prob", prob)


def listening(addr, port):
    a = "".join("%02X" % int(x) for x in reversed(addr.split(".")))
    want = "%s:%04X" % (a, port)
    with open("/proc/net/tcp") as f:
        for l in f:
            p = l.split()
            if len(p) > 3 and p[1] == want and p[3] == "0A":
                return True
    return False


DUMPS = {"sdr2demod": "rx.sdr2demod.%d.cf32", "demod2client": "rx.demod2client.%d.s8", "mod2sdr": "tx.mod2sdr.%d.cf32"}
STALE = b"an earlier run" * 500


class Server:
    """the real program with its configuration file, in a scratch directory of its own"""
    _n = 0

    def __init__(self, c, kind="asan", env=None, leaks=False, iio=False, stack_kb=0, stale=0, **conf):
        self.c, self.kind = c, kind
        with _al:
            Server._n += 1
            n = Server._n
        self.dir = os.path.join(c.work, "srv-%d" % n)
        self.out = self.dir + "/out"
        os.makedirs(self.out)
        # files that earlier runs of the server left behind
        for i in range(stale):
            for x in DUMPS.values():
                with open(os.path.join(self.out, x % i), "wb") as f:
                    f.write(STALE)
        self.addr = free_addr()
        self.port = 20000 + (os.getpid() * 31 + n * 7) % 9000
        self.conf = dict(bind_address=self.addr, port=self.port, buffer_size=4096, base_path=self.out, read_timeout_seconds=2,
                         rx_sdr_type="file", tx_sdr_type="file", queue_size=16, rx_sdr_server_address=self.addr, rx_sdr_server_port=self.port + 1)
        self.conf.update(conf)
        with open(self.dir + "/server.conf", "w") as f:
            for k, v in self.conf.items():
                f.write("%s=%s\n" % (k, '"%s"' % v if isinstance(v, str) else repr(v)))
        self.ctl = Ctl(self.dir + "/ctl")
        e = san_env(leaks, {"SRV_CTL": self.ctl.path, "SRV_ROOT": c.work})
        if iio:
            self.iio = self.dir + "/iio"
            os.makedirs(self.iio)
            e["FAKE_IIO"] = self.iio
            e["LD_LIBRARY_PATH"] = build_iio(c)
        if env:
            e.update(env)
        exe = build_server(c, kind)
        self.log = open(self.dir + "/log", "wb")
        cmd = [exe, self.dir + "/server.conf"]
        if stack_kb:
            # (stacks larger than the cache of the C library are not kept when a thread ends)
            cmd = ["/bin/sh", "-c", 'ulimit -S -s %d; exec "$@"' % stack_kb, "sh"] + cmd
        self.cmd, self.env = cmd, e
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, env=e, cwd=self.dir, start_new_session=True)
        PROCS.append(self.p)
        self.stopped = None
        atexit.register(self.kill)
        end = time.time() + 30
        while not listening(self.addr, self.port):
            if self.p.poll() is not None or time.time() > end:
                self.kill()
                raise CheckError("server didn't start: %s" % self.log_text()[-1500:])
            time.sleep(0.01)

    def again(self):
        """starts it again after it has ended, with the same configuration.  -> listening"""
        self.log = open(self.dir + "/log", "ab")
        self.p = subprocess.Popen(self.cmd, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, env=self.env, cwd=self.dir, start_new_session=True)
        PROCS.append(self.p)
        end = time.time() + 30
        while not listening(self.addr, self.port):
            if self.p.poll() is not None or time.time() > end:
                return False
            time.sleep(0.01)
        return True

    def log_text(self):
        try:
            with open(self.dir + "/log", "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 4000000))
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        if not self.log.closed:
            self.log.close()

    def stop(self, sig=signal.SIGTERM, timeout=30):
        """-> (exit code or None if it didn't end, seconds)"""
        t = time.time()
        if self.p.poll() is None:
            self.p.send_signal(sig)
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            self.kill()
        self.stopped = rc
        if not self.log.closed:
            self.log.close()
        return rc, time.time() - t

    def reports(self):
        return san_reports(self.log_text())

    def threads(self):
        try:
            return len(os.listdir("/proc/%d/task" % self.p.pid))
        except OSError:
            return -1

    def fds(self):
        out = []
        d = "/proc/%d/fd" % self.p.pid
        try:
            for x in os.listdir(d):
                try:
                    out.append(re.sub(r"\d+", "", os.readlink(d + "/" + x)) if False else os.readlink(d + "/" + x))
                except OSError:
                    pass
        except OSError:
            pass
        return out

    def client(self, **kw):
        return Client(self, **kw)

    def ping(self, timeout=20):
        c = self.client(timeout=timeout)
        try:
            c.send(msg(T_PING))
            r = c.response()
            c.read_to_end()
            return r
        finally:
            c.close()

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                v = f.read().rsplit(")", 1)[1].split()
            return int(v[11]) + int(v[12])
        except (OSError, IndexError):
            return -1

    def idle(self, timeout=60, quiet=0.2):
        """waits until the server does nothing anymore"""
        end, last, since = time.time() + timeout, None, time.time()
        while time.time() < end:
            sw = 0
            try:
                for t in os.listdir("/proc/%d/task" % self.p.pid):
                    with open("/proc/%d/task/%s/status" % (self.p.pid, t)) as f:
                        for l in f:
                            if "ctxt_switches" in l:
                                sw += int(l.split()[1])
                            elif l.startswith("State:") and l.split()[1] != "S":
                                since = time.time()         # it would run if there were a free core
            except OSError:
                pass
            v = (self.cpu(), sw)
            if v != last:
                last, since = v, time.time()
            elif time.time() - since > quiet:
                return True
            time.sleep(0.02)
        return False

    def file_consumed(self, path, timeout=60):
        """waits until the server has read the recording to its end and has processed it"""
        size = os.path.getsize(path)
        def done():
            d = "/proc/%d/fd" % self.p.pid
            try:
                for x in os.listdir(d):
                    if os.readlink(d + "/" + x) == os.path.realpath(path):
                        with open("/proc/%d/fdinfo/%s" % (self.p.pid, x)) as f:
                            if int(f.readline().split()[1]) < size:
                                return False
            except OSError:
                return False
            return True
        return bool(wait_for(done, timeout)) and self.idle(timeout)

    def dump(self, kind, cid):
        """content of an output file of a client: sdr2demod, demod2client, mod2sdr"""
        p = DUMPS[kind] % cid
        try:
            with open(os.path.join(self.out, p), "rb") as f:
                d = f.read()
                return d if d != STALE else None
        except FileNotFoundError:
            return None


def wait_for(fn, timeout, step=0.01):
    end = time.time() + timeout
    while True:
        r = fn()
        if r:
            return r
        if time.time() > end:
            return r
        time.sleep(step)


TLE = ["LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992",
       "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"]
TLE_START = 1583840449
DOPPLER = dict(tle=TLE, lat=537200000, lon=475700000, alt=0)


# ------------------------------------------------------------------ upstream SDR server
class UpConn:
    def __init__(self, up, sock, n):
        self.up, self.s, self.n = up, sock, n
        self.request = None       # (center, sampling, band, destination)
        self.events = []          # (time, what)
        self.got_shutdown = None
        self.extra = b""
        self.closed_by_server = None
        self.done = threading.Event()
        self.started = time.time()

    def ev(self, what):
        self.events.append((time.time(), what))

    def _recv(self, n):
        out = b""
        while len(out) < n:
            d = self.s.recv(n - len(out))
            if not d:
                return out
            out += d
        return out

    def read_request(self):
        h = self._recv(2)
        if len(h) < 2:
            return None
        self.header = (h[0], h[1])
        b = self._recv(13)
        if len(b) < 13:
            return None
        self.request = struct.unpack(">IIIB", b)
        self.ev("request")
        return self.request

    def respond(self, status=0, details=0, raw=None):
        self.s.sendall(raw if raw is not None else struct.pack(">BBBI", 0, 2, status, details))
        self.ev("response")

    def watch(self):
        """waits for the shutdown message and the end of the connection (in the background)"""
        def run():
            buf = b""
            self.s.settimeout(None)
            try:
                while True:
                    d = self.s.recv(64)
                    if not d:
                        break
                    buf += d
                    if len(buf) >= 2 and self.got_shutdown is None:
                        self.got_shutdown = buf[:2] == b"\0\1"
                        self.ev("shutdown message")
                        if self.up.close_on_shutdown:
                            try:
                                self.s.shutdown(socket.SHUT_RDWR)
                            except OSError:
                                pass
                            break
            except OSError:
                pass
            self.extra = buf
            self.closed_by_server = time.time()
            self.ev("closed")
            self.done.set()
        self.w = threading.Thread(target=run, daemon=True)
        self.w.start()

    def send(self, b):
        self.s.sendall(b)

    def close(self, abort=False):
        try:
            if abort:
                # connect(AF_UNSPEC) resets at once: close() would wait for the recv() of watch()
                _libc.connect(self.s.fileno(), b"\0" * 16, 16)
            else:
                self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass


def bind_retry(sock, addr, port):
    """a process being started may hold a copy of the previous listener for a moment"""
    end = time.time() + 10
    while True:
        try:
            return sock.bind((addr, port))
        except OSError as e:
            if e.errno != errno.EADDRINUSE or time.time() > end:
                raise
            time.sleep(0.01)


class Upstream:
    """script(conn) is run in a thread of its own for every connection"""
    def __init__(self, addr, port, script=None, close_on_shutdown=True, sndbuf=None):
        self.conns, self.lock = [], threading.Condition()
        self.script = script or self.default
        self.close_on_shutdown = close_on_shutdown
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if sndbuf:
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        bind_retry(self.l, addr, port)
        self.l.listen(64)
        self.stopping = False
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        n = 0
        while not self.stopping:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            cn = UpConn(self, s, n)
            n += 1
            threading.Thread(target=self.serve, args=(cn,), daemon=True).start()

    def serve(self, cn):
        try:
            self.script(cn)
        except OSError as e:
            cn.ev("error %s" % e)

    def register(self, cn):
        with self.lock:
            self.conns.append(cn)
            self.lock.notify_all()

    def default(self, cn):
        """accepts every request; the test sends the samples itself"""
        if cn.read_request() is None:
            return
        cn.respond()
        cn.watch()
        self.register(cn)

    def wait_conn(self, n, timeout=20):
        """the n-th connection (from 0)"""
        end = time.time() + timeout
        with self.lock:
            while len(self.conns) <= n and time.time() < end:
                self.lock.wait(0.2)
            return self.conns[n] if len(self.conns) > n else None

    def stop(self):
        self.stopping = True
        try:
            self.l.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.l.close()
        for cn in self.conns:
            try:
                cn.s.close()
            except OSError:
                pass


# ------------------------------------------------------------------ references
_tmpn = [0]


def tmp(c, suffix=""):
    with _al:
        _tmpn[0] += 1
        return os.path.join(c.work, "t%d%s" % (_tmpn[0], suffix))


def _ref(c, args):
    r = subprocess.run([build_ref(c)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode:
        raise CheckError("reference failed: %s: %s" % (args, r.stdout[-500:]))


def ref_signal(c, seed, nsym, sps, fs, dev, noise=0.05, offset=0.0):
    p = tmp(c, ".cf32")
    _ref(c, ["sig", seed, nsym, sps, fs, dev, noise, offset, p])
    return p


def _dop(c, d, center, start):
    t = tmp(c, ".tle")
    with open(t, "w") as f:
        f.write("\n".join(d["tle"]) + "\n")
    return [start, center, d["lat"] / 1e7, d["lon"] / 1e7, d["alt"] / 1e4, t]


def ref_demod(c, path, req, shift=0, chunk=0):
    """what the demodulator of request `req` makes of the recording"""
    p = dict(RX_DEF)
    p.update(req)
    o = tmp(c)
    a = ["demod", path, o, p["fs"], p["baud"], p["fsk"]["dev"], p["dec"], p["fsk"]["tw"], int(p["fsk"]["dc"]), shift, chunk]
    if p["doppler"]:
        a += _dop(c, p["doppler"], p["center"], (p["file"] or {}).get("start", 0))
    _ref(c, a)
    with open(o, "rb") as f:
        r = f.read()
    os.unlink(o)
    return r


def ref_mod(c, data, req, chunk=0):
    p = dict(TX_DEF)
    p.update(req)
    i, o = tmp(c), tmp(c)
    with open(i, "wb") as f:
        f.write(data)
    a = ["mod", i, o, p["fs"], p["baud"], p["fsk"]["dev"], p["offset"], chunk]
    if p["doppler"]:
        a += _dop(c, p["doppler"], p["center"], (p["file"] or {}).get("start", 0))
    _ref(c, a)
    with open(o, "rb") as f:
        r = f.read()
    os.unlink(i); os.unlink(o)
    return r


def ref_shift(c, path, fs, offset):
    o = tmp(c)
    _ref(c, ["shift", path, o, fs, offset, 0])
    r = readf(o)
    os.unlink(o)
    return r


def readf(p):
    with open(p, "rb") as f:
        return f.read()


def first_diff(a, b):
    if a == b:
        return None
    n = min(len(a), len(b))
    lo, hi = 0, n
    if a[:n] == b[:n]:
        return n
    while hi - lo > 1:
        m = (lo + hi) // 2
        if a[lo:m] == b[lo:m]:
            lo = m
        else:
            hi = m
    return lo


def s8(b):
    return [x - 256 if x > 127 else x for x in b]


def near_s8(a, b, tol=3, slack=2, frac=0.0):
    """soft bits are the same except for rounding: lengths within slack, values within tol, at most frac outliers"""
    if abs(len(a) - len(b)) > slack:
        return False
    bad = sum(1 for x, y in zip(a, b) if min((x - y) & 255, (y - x) & 255) > tol)
    return bad <= frac * max(1, min(len(a), len(b)))


def diff_text(got, want, unit=1):
    d = first_diff(got, want)
    return "%d bytes instead of %d, first difference at %s (%s instead of %s)" % (
        len(got), len(want), None if d is None else d // unit, got[d:d + 12].hex() if d is not None else "", want[d:d + 12].hex() if d is not None else "")


def finish_server(c, srv, label, reports=True, must_exit=True, timeout=30):
    """stops the server; sanitizer reports and a bad end are violations of the calling check"""
    died = not srv.alive()
    rc, dt = srv.stop(timeout=timeout)
    reps = srv.reports()
    bad = False
    if reports:
        for key, det in reps:
            c.violation(key, det, {"label": label, "conf": srv.conf})
            bad = True
    if died and not reps and reports:
        c.violation("server-died", "%s: ended with %s: %s" % (label, rc, srv.log_text()[-1200:]), {"label": label})
        bad = True
    return rc, dt, bad


def open_device(srv, t, body, timeout=15, busy=(TX_USED, RX_USED)):
    """opens a session; the device of the previous session is released in the background.  -> (client, response)"""
    end = time.time() + timeout
    while True:
        cl = srv.client(timeout=30)
        r = cl.open(t, body)
        if r[0] == FAIL and r[1] in busy and time.time() < end:
            cl.close()
            time.sleep(0.02)
            continue
        return cl, r


def compare(c, mode, a, b, tol, *more):
    """compares samples (bytes) in the helper: None or a description of the first difference.  near, near16, steps"""
    p, q = tmp(c), tmp(c)
    for n, d in ((p, a), (q, b)):
        with open(n, "wb") as f:
            f.write(d)
    r = subprocess.run([build_ref(c), mode, p, q, repr(tol)] + [str(m) for m in more], stdout=subprocess.PIPE, text=True, timeout=300)
    os.unlink(p); os.unlink(q)
    if r.returncode:
        raise CheckError("comparison failed")
    i, na, nb, x, y = r.stdout.split()
    if int(i) < 0:
        return None
    return "sample %s is %s instead of %s (%s and %s samples)" % (i, x, y, na, nb)
