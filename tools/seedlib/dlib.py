"""Helpers of the demonstrations: the built programs, run in a scratch directory."""
import atexit, collections, random, os, select, shutil, signal, socket, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlspsk
from tlspsk import Closed, TLSError

REPO = os.getcwd()
NSCA = os.path.join(REPO, "_build/src/server/nsca-ng")
SEND = os.path.join(REPO, "_build/src/client/send_nsca")
TMP = tempfile.mkdtemp(prefix="demo-")
PROCS = []
os.chmod(TMP, 0o755)


def _clean():
    for p in PROCS:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(_clean)


def ok(msg="as specified"):
    print("OK:", msg)
    sys.exit(0)


def bad(msg):
    print("BROKEN:", msg)
    sys.exit(1)


def expect(cond, msg):
    if not cond:
        bad(msg)


def wait_for(f, t=10):
    end = time.time() + t
    while time.time() < end:
        v = f()
        if v:
            return v
        time.sleep(0.01)
    return None


_ports, _held, _plock = set(), collections.deque(), threading.Lock()


def free_port():
    """A port nobody listens on, below the kernel's ephemeral range, and reserved against other threads and
    checks running at the same time (an abstract socket's name is the lock; released when we exit)."""
    with _plock:
        for n in range(4000):
            p = random.SystemRandom().randrange(10100, 32000)
            if p in _ports and n < 2000:
                continue
            lock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
            s = socket.socket()
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(("127.0.0.1", p))
                lock.bind("\0nsca-ng-port-%d" % p)
            except OSError:
                lock.close()
                continue
            finally:
                s.close()
            _ports.add(p)
            _held.append(lock)
            if len(_held) > 400:
                _held.popleft().close()
            return p
    raise OSError("no free port")


class Srv:
    def __init__(self, auth='authorize "*" {\n password = "pw"\n commands = ".*"\n}\n', opts="", args=(), level=5,
                 fifo=True, reading=True, start=True, env=None, **popen):
        self.d = tempfile.mkdtemp(dir=TMP)
        os.chmod(self.d, 0o755)
        self.cmd = self.d + "/cmd"
        self.tmp = self.d + "/tmp"
        os.mkdir(self.tmp)
        self.fd = None
        if fifo:
            os.mkfifo(self.cmd)
        if fifo and reading:
            self.open()
        self.buf = b""
        self.port = free_port()
        self.cfg = self.d + "/cfg"
        self.base = f'command_file = "{self.cmd}"\ntemp_directory = "{self.tmp}"\nlog_level = {level}\n'
        self.write(opts + "\n" + auth)
        self.errf = self.d + "/stderr"
        self.args, self.env, self.popen = list(args), env, popen
        self.p = None
        if start:
            self.start()

    def write(self, text):
        with open(self.cfg, "w") as f:
            f.write(self.base + text)

    def open(self):
        self.fd = os.open(self.cmd, os.O_RDONLY | os.O_NONBLOCK)

    def start(self):
        self.p = subprocess.Popen([NSCA, "-F", "-c", self.cfg, "-b", f"127.0.0.1:{self.port}", *self.args],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.errf, "ab"),
                                  env={**os.environ, **(self.env or {})}, **self.popen)
        PROCS.append(self.p)

        def up():
            if self.p.poll() is not None:
                return True
            want = ":%04X" % self.port
            return any(want in l.split()[1] and l.split()[3] == "0A" for l in open("/proc/net/tcp").readlines()[1:])
        expect(wait_for(up) and self.p.poll() is None, "server did not start: " + self.err())

    def err(self):
        return open(self.errf, "rb").read().decode("latin-1")

    def read(self, want=None, t=5):
        """Pipe contents so far; waits until want(data) (or the time is up)."""
        end = time.time() + t
        while True:
            try:
                d = os.read(self.fd, 65536)
                self.buf += d
            except BlockingIOError:
                d = b""
            if not d:
                if want is None and time.time() > end or want is not None and (want(self.buf) or time.time() > end):
                    return self.buf
                time.sleep(0.01)

    def sess(self, ident=b"id", key=b"pw", moin=True, **kw):
        s = Sess(tlspsk.session(self.port, ident, key, 20, **kw))
        if moin:
            expect(s.cmd(b"MOIN 1 abcdefgh") == b"MOIN 1\r\n", "MOIN refused")
        return s

    def term(self, sig=signal.SIGTERM, t=20):
        self.p.send_signal(sig)
        return self.p.wait(t)


class Sess:
    def __init__(self, e):
        self.e = e

    def send(self, b):
        self.e.send(b)

    def line(self, t=20):
        return self.e.readline(t)

    def cmd(self, l):
        self.e.send(l + b"\r\n")
        return self.line()

    def push(self, p):
        r = self.cmd(b"PUSH %d" % len(p))
        if not r.startswith(b"OKAY"):
            return r
        self.e.send(p)
        return self.line()

    def quit(self):
        r = self.cmd(b"QUIT")
        try:
            self.e.read_to_end(10)
        except (Closed, TLSError):
            pass
        self.e.close()
        return r


class Fake(threading.Thread):
    """A scripted server: answer(kind, arg, sess) -> bytes, or None to close."""

    def __init__(self, answer=None, key=b"pw"):
        super().__init__(daemon=True)
        self.answer, self.key = answer, key
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(16)
        self.port = self.s.getsockname()[1]
        self.log = []          # (kind, bytes) of all connections
        self.start()

    def run(self):
        while True:
            c, _ = self.s.accept()
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            e = tlspsk.Endpoint(c, "server", keys=lambda i: self.key)
            e.handshake(20)
            while True:
                l = e.readline(20)
                w = l.split()
                k = w[0].upper().decode() if w else ""
                self.log.append((k, l))
                default = b"MOIN 1\r\n" if k == "MOIN" else b"OKAY\r\n"
                r = self.answer(k, l, e) if self.answer else default
                r = default if r is True else r
                if r is None:
                    e.close()
                    return
                e.send(r)
                if k == "PUSH" and r.upper().startswith(b"OKAY"):
                    d = e.read(int(w[1]), 20)
                    self.log.append(("DATA", d))
                    r = self.answer("DATA", d, e) if self.answer else b"OKAY\r\n"
                    r = b"OKAY\r\n" if r is True else r
                    if r is None:
                        e.close()
                        return
                    e.send(r)
                elif k == "QUIT":
                    try:
                        e.shutdown()
                        e.read_to_end(5)
                    except Exception:
                        pass
                    e.close()
                    return
                elif k == "BAIL":
                    return
        except Exception as x:
            self.log.append(("ERR", repr(x).encode()))

    def data(self):
        return [d for k, d in self.log if k == "DATA"]


def send_nsca(port, stdin=b"", args=(), conf='password = "pw"\n', timeout=60):
    f = tempfile.mktemp(dir=TMP)
    with open(f, "w") as fh:
        fh.write(conf)
    return subprocess.run([SEND, "-c", f, "-H", "127.0.0.1", "-p", str(port), *args], input=stdin,
                          capture_output=True, timeout=timeout)


def expand(data):
    """Pipe contents with the spool files they refer to (which may refer to others)."""
    import re
    out = []
    for l in data.splitlines(True):
        m = re.fullmatch(rb"\[\d+\] PROCESS_FILE;(.*);1\n", l)
        out += expand(open(m.group(1), "rb").read()) if m else [l]
    return out
