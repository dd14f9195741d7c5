"""Shared pieces of the checks: contexts, servers under test, readers, scripted peers."""
import atexit, base64, collections, hashlib, json, os, random, re, select, shutil, signal, socket, stat, struct, subprocess
import sys, tempfile, threading, time
import build, tlspsk
from tlspsk import Closed, TLSError

VERIF = build.VERIF
SAN = re.compile(r"AddressSanitizer|LeakSanitizer: detected|runtime error:|ThreadSanitizer|MemorySanitizer|"
                 r"UndefinedBehaviorSanitizer|Assertion|stack smashing|\*\*\* .* detected \*\*\*|double free|corrupted")


_T0 = None


def _started(pid):
    """Start time of a process (field 22 of its stat), or None."""
    try:
        with open(f"/proc/{pid}/stat", "rb") as f:
            return int(f.read().rsplit(b")", 1)[1].split()[19])
    except (OSError, IndexError, ValueError):
        return None


def _kill(pid, sig, kill=os.kill):
    """os.kill() for a harness that takes PIDs from files a (possibly broken) daemon wrote: only
    processes younger than the check itself are ever signalled, never groups."""
    global _T0
    if _T0 is None:
        _T0 = _started(os.getpid())
    t = _started(pid) if pid > 1 else None
    if t is None or t < _T0:
        raise ProcessLookupError(3, f"process {pid} is none of this check's")
    return kill(pid, sig)


os.kill = _kill


class Inconclusive(Exception):
    """The harness could not observe what it wanted to; says nothing about the property."""


class Violation(Exception):
    """soft: the verdict rests on something not having happened in time; it is confirmed
    by a repetition before it counts."""

    def __init__(self, what, detail=None, key=None, soft=False):
        super().__init__(what)
        self.what, self.detail, self.key, self.soft = what, detail, key, soft


class Ctx:
    """One run of one check."""

    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.monotonic()
        self.tmp = tempfile.mkdtemp(prefix=f"nsca-{pid}-")
        os.chmod(self.tmp, 0o755)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.rule = ""
        self.assumptions = []
        self.violations = []
        self.inconclusive = []
        self.known_hit = {}
        self.procs = []
        self.leaks = pid in ("C13", "C14")     # leaks are judged by these checks only
        atexit.register(self.cleanup)
        p = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(p)) if os.path.exists(p) else [])
                      if k["property"] == pid and k["status"] == "open"]

    # quantity that grows with the tier
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, quick=100, thorough=1500):
        """Seconds left of a soft budget (only used to stop, never to judge)."""
        return (thorough if self.thorough else quick) - (time.monotonic() - self.t0)

    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=12).digest())
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def dir(self, name="d"):
        d = tempfile.mkdtemp(prefix=name + "-", dir=self.tmp)
        os.chmod(d, 0o755)
        return d

    def violation(self, what, detail=None, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit[key] = k
                return
        self.violations.append({"what": what, "detail": detail, "key": key})
        if len(self.violations) >= 5:
            raise StopCheck()

    def expect(self, cond, what, detail=None, key=None):
        if not cond:
            self.violation(what, detail, key)
        return cond

    def attempt(self, fn, *args, retries=1, what=None, **kw):
        """Run a scenario; a time-out, broken connection or soft Violation is confirmed by
        repeating the scenario."""
        last = None
        for i in range(retries + 1):
            try:
                return fn(*args, **kw)
            except Violation as v:
                last = v
                if not v.soft:
                    break
            except (TimeoutError, Inconclusive) as e:
                last = e
            except (Closed, TLSError, ConnectionError, OSError) as e:
                last = Violation(f"{what or fn.__name__}: connection broke: {type(e).__name__}: {e}")
            if self.left() < -60:
                break
        if isinstance(last, Violation):
            self.violation(last.what, last.detail, last.key)
        elif isinstance(last, Inconclusive):
            self.inconclusive.append(str(last))
        else:
            self.violation(f"{what or fn.__name__}: no answer in time: {last}", None)
        return None

    def pmap(self, fn, items, workers=8):
        """fn(item) for every item, several at a time; each through attempt()."""
        import concurrent.futures
        stop = []

        def one(it):
            if stop:
                return None
            try:
                return self.attempt(fn, it, what=f"{fn.__name__}({it!r})"[:200])
            except StopCheck:
                stop.append(1)
            except Exception as e:
                self.inconclusive.append(f"{type(e).__name__}: {e} in {fn.__name__}({it!r})"[:300])
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            r = list(ex.map(one, items))
        if stop:
            raise StopCheck()
        return r

    def spawn(self, *a, **kw):
        p = subprocess.Popen(*a, **kw)
        self.procs.append(p)
        return p

    def cleanup(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    p.kill()
                    p.wait(5)
                except Exception:
                    pass
        self.procs = []
        if self.tmp and os.path.isdir(self.tmp):
            shutil.rmtree(self.tmp, ignore_errors=True)

    def finish(self):
        wall = time.monotonic() - self.t0
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(none)"], "observed": self.counts}
        if self.inconclusive:
            cov["not_observed"] = self.inconclusive[:20]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations),
              "known_findings": [k["what"] for k in self.known_hit.values()]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=lambda o: o.decode("latin-1") if isinstance(o, bytes) else str(o))
        for k in self.known:
            if k["key"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            else:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']} (not exercised in this run)")
        if self.violations:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "command": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 check.py {self.pid}",
                           "violations": self.violations}, f, indent=1, default=repr)
            for v in self.violations:
                print(f"  {self.pid}: {v['what']}"[:2000])
                if v["detail"]:
                    print("    " + str(v["detail"])[:1500].replace("\n", "\n    "))
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        for i in self.inconclusive[:5]:
            print(f"  {self.pid}: not observed: {i}"[:400])
        print(f"{self.pid}: held on {self.evals} cases ({len(self.distinct)} distinct non-trivial), "
              f"{wall:.1f} s; observed {self.counts}")
        return 0


class StopCheck(Exception):
    pass


_ports, _held, _plock = set(), collections.deque(), threading.Lock()


def free_port():
    """A port nobody listens on, below the kernel's ephemeral range, and reserved against other threads and
    checks running at the same time (an abstract socket's name is the lock; released when we exit)."""
    with _plock:
        for n in range(4000):
            p = random.SystemRandom().randrange(10100, 32000)
            if p in _ports and n < 2000:
                continue
            lock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
            s = socket.socket()
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(("127.0.0.1", p))
                lock.bind("\0nsca-ng-port-%d" % p)
            except OSError:
                lock.close()
                continue
            finally:
                s.close()
            _ports.add(p)
            _held.append(lock)
            if len(_held) > 400:
                _held.popleft().close()
            return p
    raise OSError("no free port")


def port_usable(host, port):
    """Can this process listen there?  (Also true if the name isn't an address.)"""
    try:
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((host, port))
        s.close()
        return True
    except socket.gaierror:
        return True
    except OSError:
        return False


def program(path, text=None, src=None, mode=0o755):
    """Make an executable file.  A child writes it: a descriptor of our own could be inherited by a process another
    thread is just starting, and the file could not be executed as long as that one has it open (ETXTBSY)."""
    subprocess.run(["cp", "--", src, path] if src else ["sh", "-c", 'cat > "$0"', path], input=None if src else os.fsencode(text), check=True)
    os.chmod(path, mode)
    return path


def wait_for(cond, timeout=10.0, step=0.01):
    end = time.monotonic() + timeout
    while True:
        v = cond()
        if v:
            return v
        if time.monotonic() > end:
            return None
        time.sleep(step)


def listening(port):
    want = "%04X" % port
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(f) as fh:
                for l in fh:
                    w = l.split()
                    if len(w) > 3 and w[3] == "0A" and w[1].endswith(":" + want):
                        return True
        except OSError:
            pass
    return False


def q(s):
    """A libConfuse double-quoted string."""
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("$", "\\$") + '"'


class Fifo:
    """A named pipe with a recording reader (thread).  Reading can be paused and the
    reading end closed and reopened."""

    def __init__(self, path, reading=True, create=True):
        self.path = path
        if create:
            os.mkfifo(path, 0o600)
        self.data = bytearray()
        self.lock, self.polling, self.closing = threading.Lock(), threading.Lock(), False
        self.fd = None
        self.paused = threading.Event()
        self.stop = False
        self.on_data = None
        self.chunk = 65536
        self.delay = 0.0
        self.wake = os.pipe()
        self.thread = threading.Thread(target=self._run, daemon=True)
        if reading:
            self.open()
        self.thread.start()

    def open(self):
        if self.fd is None:
            self.fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)

    def close_reader(self):
        # A poll(2) in progress would keep the reading end open.
        self.closing = True
        with self.polling, self.lock:
            if self.fd is not None:
                while self._drain():
                    pass
                os.close(self.fd)
                self.fd = None
        self.closing = False

    def _drain(self):
        while True:
            try:
                d = os.read(self.fd, self.chunk)
            except BlockingIOError:
                return False
            if not d:
                return False
            self.data += d
            if self.on_data:
                self.on_data(d)
            if self.delay:
                return True

    def _run(self):
        while not self.stop:
            if self.fd is None or self.closing or self.paused.is_set():
                time.sleep(0.005)
                continue
            with self.polling:
                fd = self.fd
                if fd is None or self.closing:
                    continue
                p = select.poll()
                p.register(fd, select.POLLIN)
                ev = p.poll(20)
            if not ev:
                continue
            with self.lock:
                if self.fd is None or self.paused.is_set():
                    continue
                n = len(self.data)
                self._drain()
            if len(self.data) == n:
                time.sleep(0.01)      # POLLHUP without writers
            if self.delay:
                time.sleep(self.delay)

    def pause(self):
        self.paused.set()
        with self.lock:
            pass

    def resume(self):
        self.paused.clear()

    def snapshot(self):
        with self.lock:
            return bytes(self.data)

    def shutdown(self):
        if self.stop:
            return
        self.stop = True
        self.thread.join(2)
        for f in self.wake:
            os.close(f)
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None


class Server:
    """nsca-ng running in the foreground on a loopback port."""

    def __init__(self, ctx, conf=None, variant="asan", auth=None, dir=None, loglevel=5, fifo=True, opts="",
                 mon=False, mem=False, args=(), env=None, reading=True, start=True, keep_stderr=True, listen="127.0.0.1",
                 nofile=None, preexec=None, temp=None, wrapper=()):
        self.ctx = ctx
        self.variant = variant
        self.dir = dir or ctx.dir("srv")
        self.cmdfile = os.path.join(self.dir, "cmd")
        self.tmpdir = temp or os.path.join(self.dir, "tmp")
        os.makedirs(self.tmpdir, exist_ok=True)
        self.err = os.path.join(self.dir, "stderr")
        self.san = os.path.join(self.dir, "san")
        self.wlog = os.path.join(self.dir, "wlog") if mon else None
        self.ctl = os.path.join(self.dir, "ctl") if mon else None
        self.mem = os.path.join(self.dir, "mem") if mem else None
        if self.ctl:
            open(self.ctl, "w").close()
        self.fifo = None
        if fifo:
            self.fifo = Fifo(self.cmdfile, reading=reading)
        self.listen = listen
        self.auth = auth if auth is not None else 'authorize "*" {\n password = "pw"\n commands = ".*"\n}\n'
        self.opts, self.loglevel, self.conf = opts, loglevel, conf
        self.args, self.env, self.nofile, self.preexec = list(args), dict(env or {}), nofile, preexec
        self.wrapper = list(wrapper)
        self.p = None
        self.port = None
        if start:
            self.start()

    def conf_text(self):
        if self.conf is not None:
            t = self.conf
        else:
            t = (f"command_file = {q(self.cmdfile)}\ntemp_directory = {q(self.tmpdir)}\n"
                 f"log_level = {self.loglevel}\n{self.opts}\n{self.auth}")
        return t

    def binary(self):
        return build.server(self.variant)

    def rss(self):
        with open(f"/proc/{self.p.pid}/statm") as f:
            return int(f.read().split()[1]) * 4096

    def environ(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("NSCAMON", "ASAN", "UBSAN", "LSAN", "LISTEN", "NOTIFY", "WATCHDOG"))}
        e["ASAN_OPTIONS"] = f"log_path={self.san}:exitcode=99:abort_on_error=0:detect_leaks={int(self.ctx.leaks)}:allocator_may_return_null=1:handle_abort=1"
        e["UBSAN_OPTIONS"] = f"log_path={self.san}:print_stacktrace=1:exitcode=99:halt_on_error=1"
        e["LSAN_OPTIONS"] = "exitcode=23"
        if self.wlog:
            e["NSCAMON_LOG"], e["NSCAMON_CTL"] = self.wlog, self.ctl
        if self.mem:
            e["NSCAMON_MEM"] = self.mem
        e.update(self.env)
        return e

    def start(self, wait=True):
        cfile = os.path.join(self.dir, "nsca-ng.cfg")
        with open(cfile, "w", encoding="latin-1") as f:
            f.write(self.conf_text())
        os.chmod(cfile, 0o644)
        self.cfile = cfile
        for attempt in range(6):
            self.port = self.port if attempt == 0 and self.port else free_port()
            argv = self.wrapper + [self.binary(), "-F", "-c", cfile, "-b", f"{self.listen}:{self.port}", *self.args]

            def pre():
                if self.nofile:
                    import resource
                    resource.setrlimit(resource.RLIMIT_NOFILE, (self.nofile, self.nofile))
                if self.preexec:
                    self.preexec()
            with open(self.err, "ab") as ef:
                self.p = self.ctx.spawn(argv, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=self.environ(),
                                        cwd=self.dir, preexec_fn=pre if (self.nofile or self.preexec) else None)
            if not wait:
                return self
            ok = wait_for(lambda: self.p.poll() is not None or listening(self.port), 30, 0.005)
            if self.p.poll() is None and ok:
                return self
            if self.p.poll() is None:
                raise Violation("server did not start listening within 30 s", self.conf_text() + self.stderr()[-2000:].decode("latin-1"), soft=True)
            if b"Cannot bind" in self.stderr() or b"in use" in self.stderr():
                continue
            raise Violation("server did not start", f"status {self.p.returncode}\n{self.conf_text()}\n{self.stderr()[-3000:].decode('latin-1')}{self.reports()}")
        if port_usable(self.listen, self.port):
            raise Violation("server did not start on a free port", f"status {self.p.returncode}\n{self.stderr()[-3000:].decode('latin-1')}", soft=True)
        raise Inconclusive("no free port")

    def stderr(self):
        try:
            with open(self.err, "rb") as f:
                return f.read()
        except OSError:
            return b""

    def set_ctl(self, text):
        with open(self.ctl + ".new", "w") as f:
            f.write(text)
        os.rename(self.ctl + ".new", self.ctl)

    def events(self):
        try:
            with open(self.wlog, "rb") as f:
                b = f.read()
        except OSError:
            return []
        out, i = [], 0
        while i + 5 <= len(b):
            t, l = struct.unpack_from("<BI", b, i)
            out.append((chr(t), b[i + 5:i + 5 + l]))
            i += 5 + l
        return out

    def reports(self):
        out = ""
        d = os.path.dirname(self.san)
        for f in sorted(os.listdir(d)):
            if f.startswith("san."):
                with open(os.path.join(d, f), errors="replace") as fh:
                    t = fh.read()
                if "LeakSanitizer has encountered a fatal error" in t or "does not work under ptrace" in t:
                    self.ctx.count("leak check unavailable")
                    continue
                out += t
        return out

    def alive(self):
        return self.p.poll() is None

    def check_alive(self, what="server died"):
        if not self.alive():
            raise Violation(what, f"status {self.p.returncode}\n{self.reports()[:6000]}\n{self.stderr()[-1500:].decode('latin-1')}")

    def client(self, identity=b"id", key=b"pw", timeout=20.0, **kw):
        return tlspsk.session(self.port, identity, key, timeout, **kw)

    def pids_fds(self):
        return sorted(os.listdir(f"/proc/{self.p.pid}/fd"))

    def fds(self):
        """Descriptors with their targets."""
        out = {}
        for f in os.listdir(f"/proc/{self.p.pid}/fd"):
            try:
                out[int(f)] = os.readlink(f"/proc/{self.p.pid}/fd/{f}")
            except OSError:
                pass
        return out

    def sockets(self):
        return [t for t in self.fds().values() if t.startswith("socket:")]

    def allocated(self, tries=3):
        """Allocated bytes; the least of a few readings, as the server may just be at work."""
        got = []
        for _ in range(tries):
            try:
                n = os.path.getsize(self.mem)
            except OSError:
                n = 0
            os.kill(self.p.pid, signal.SIGUSR2)
            if not wait_for(lambda: os.path.exists(self.mem) and os.path.getsize(self.mem) > n, 10):
                raise Inconclusive("no memory report")
            time.sleep(0.015)
            with open(self.mem) as f:
                got.append(int(f.read().split()[-1]))
        return min(got)

    def wait_fifo(self, pred, timeout=20.0):
        return wait_for(lambda: pred(self.fifo.snapshot()), timeout)

    def stop(self, sig=signal.SIGTERM, timeout=60.0, check=True):
        """Orderly stop; sanitizer findings and a wrong exit status are violations."""
        if self.p is None:
            return None
        if self.p.poll() is None:
            self.p.send_signal(sig)
            try:
                self.p.wait(timeout)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                if self.fifo:
                    self.fifo.shutdown()
                if check:
                    raise Violation(f"server did not stop within {timeout} s of signal {sig}", self.stderr()[-1500:], soft=True)
        rc = self.p.returncode
        if self.fifo:
            self.fifo.shutdown()
        if check:
            r = self.reports()
            if r:
                raise Violation("sanitizer report: " + first_line(r), r[:8000])
            if rc != 0:
                raise Violation(f"server ended with status {rc}", self.stderr()[-1500:].decode("latin-1"))
        return rc

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.stop()
        else:
            rep = ""
            if self.p is not None:
                if self.p.poll() is None:
                    self.p.terminate()
                    try:
                        self.p.wait(20)
                    except subprocess.TimeoutExpired:
                        self.p.kill()
                        self.p.wait()
                rep = self.reports()
                if self.fifo:
                    self.fifo.shutdown()
            if rep and not isinstance(ev, Violation):
                raise Violation("sanitizer report: " + first_line(rep), rep[:8000]) from ev
            if rep and isinstance(ev, Violation):
                ev.detail = f"{ev.detail}\n{rep[:4000]}"
        return False


def first_line(r):
    for l in r.splitlines():
        if SAN.search(l):
            return l.strip()[:300]
    return r.strip().splitlines()[0][:300] if r.strip() else ""


class Sess:
    """A protocol-level client session with a transcript."""

    def __init__(self, ep, timeout=20.0):
        self.e, self.timeout, self.log = ep, timeout, []

    def line(self):
        l = self.e.readline(self.timeout)
        self.log.append(("S", l))
        return l

    def cmd(self, line, end=b"\r\n"):
        self.log.append(("C", line))
        self.e.send(line + end)
        return self.line()

    def moin(self, sid=b"abcdefgh"):
        r = self.cmd(b"MOIN 1 " + sid)
        if r != b"MOIN 1\r\n":
            raise Violation(f"MOIN answered with {r!r}")
        return self

    def push(self, payload):
        """-> final response line (FAIL from the announcement included)."""
        r = self.cmd(b"PUSH %d" % len(payload))
        if r != b"OKAY\r\n":
            return r
        self.log.append(("C", payload))
        self.e.send(payload)
        return self.line()

    def quit(self):
        r = self.cmd(b"QUIT")
        rest = self.e.read_to_end(self.timeout)
        self.e.close()
        return r, rest

    def close(self):
        self.e.close()


def sess(port, identity=b"id", key=b"pw", timeout=20.0, moin=True, **kw):
    s = Sess(tlspsk.session(port, identity, key, timeout, **kw), timeout)
    return s.moin() if moin else s


def now():
    return int(time.time())


def split_stream(data):
    """Pipe bytes -> list of lines (with newline); the rest (incomplete) separately."""
    lines = data.split(b"\n")
    return [l + b"\n" for l in lines[:-1]], lines[-1]


PF = re.compile(rb"^\[(\d+)\] PROCESS_FILE;(.*);1\n$")


def own_file(p):
    """Is that a file in the scratch directory of a check?  Nothing else is ever read or deleted
    on behalf of a command: a client may well submit "PROCESS_FILE;/etc/passwd;1"."""
    real, scratch = os.path.realpath(os.fsdecode(p)), os.path.join(os.path.realpath(tempfile.gettempdir()), "nsca-")
    return real.startswith(scratch) and not os.path.islink(p) and not os.path.isdir(p)


def expand(lines, consume=True):
    """Replace references to spool files by the contents of the files (which may hold such lines
    themselves), as the core would.  -> (commands, files: list of (path, stat, contents),
    problems)"""
    out, files, problems, seen = [], [], [], set()

    def walk(ls):
        for l in ls:
            m = PF.match(l)
            if not m or not own_file(m.group(2)):
                out.append(l)
                continue
            p = m.group(2)
            if p in seen:
                problems.append(f"{p!r} is referenced more than once")
                continue
            seen.add(p)
            try:
                st = os.lstat(p)
                with open(p, "rb") as f:
                    c = f.read()
                files.append((p, st, c))
                if consume:
                    os.unlink(p)
            except OSError as e:
                problems.append(f"{l!r}: {e}")
                continue
            if not c.endswith(b"\n"):
                problems.append(f"{p!r} does not end with a newline")
            sub, rest = split_stream(c)
            walk(sub)
            if rest:
                out.append(rest)
    walk(lines)
    return out, files, problems


class FakeServer(threading.Thread):
    """Scripted NSCA-ng server: handler(endpoint, n) is called per connection in a thread."""

    def __init__(self, handler, keys=None, host="127.0.0.1", version=None, raw=False, ciphers=tlspsk.CIPHERS, port=0):
        super().__init__(daemon=True)
        self.handler, self.keys, self.version, self.raw, self.ciphers = handler, keys or (lambda i: b"pw"), version, raw, ciphers
        self.s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((host, port))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.conns, self.errors, self.stop_flag = [], [], False
        self.threads = []
        self.start()

    def run(self):
        n = 0
        while not self.stop_flag:
            p = select.poll()
            p.register(self.s, select.POLLIN)
            if not p.poll(50):
                continue
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            rec = {"n": n, "events": [], "identity": None, "error": None}
            self.conns.append(rec)
            t = threading.Thread(target=self._serve, args=(c, rec), daemon=True)
            self.threads.append(t)
            t.start()
            n += 1

    def _serve(self, c, rec):
        ep = None
        try:
            if self.raw:
                self.handler(c, rec)
                return
            ep = tlspsk.Endpoint(c, "server", keys=self.keys, version=self.version, ciphers=self.ciphers)
            rec["ep"] = ep
            ep.handshake(20)
            rec["identity"] = ep.identity_seen
            rec["handshaken"] = True
            self.handler(ep, rec)
        except (Closed, TLSError, TimeoutError, OSError) as e:
            rec["error"] = f"{type(e).__name__}: {e}"
            if ep is not None:
                rec["identity"] = ep.identity_seen
        except Exception as e:
            rec["error"] = f"{type(e).__name__}: {e}"
            self.errors.append(repr(e))
        finally:
            try:
                if ep is not None:
                    ep.close()
                else:
                    c.close()
            except Exception:
                pass
            rec["done"] = True

    def close(self):
        self.stop_flag = True
        self.join(2)
        self.s.close()
        for t in self.threads:
            t.join(5)


def polite(ep, rec, respond=None):
    """Speaks the protocol correctly; respond(kind, arg) may override a response
    (bytes: send that; None: default; callable(ep): do that and stop)."""
    ev = rec["events"]

    def say(kind, arg, default):
        r = respond(kind, arg) if respond else None
        if callable(r):
            r(ep)
            raise Closed("scripted")
        ep.send(default if r is None else r)
        return (default if r is None else r)
    while True:
        try:
            l = ep.readline(30)
        except Closed:
            ev.append(("EOF", ep.close_notify_received))
            return
        w = l.split()
        k = w[0].upper() if w else b""
        ev.append((k.decode("latin-1"), l))
        if k == b"MOIN":
            say("MOIN", l, b"MOIN 1\r\n")
        elif k == b"PUSH":
            n = int(w[1])
            r = say("PUSH", n, b"OKAY\r\n")
            if r.upper().startswith(b"OKAY"):
                d = ep.read(n, 30)
                ev.append(("DATA", d))
                say("DATA", d, b"OKAY\r\n")
                ev.append(("ACK", d))
        elif k == b"QUIT":
            say("QUIT", l, b"OKAY\r\n")
            ev.append(("QUITACK", b""))
            try:
                ep.shutdown()
                ep.read_to_end(5)
            except (Closed, TimeoutError, TLSError):
                pass
            return
        elif k == b"BAIL":
            return
        else:
            say(k.decode("latin-1"), l, b"FAIL what\r\n")
