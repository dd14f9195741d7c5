"""C21: inherited socket, readiness and watchdog.  Oracle: a stand-in service manager that owns the
listening socket and receives every notification, and clients started the moment it hears READY."""
import random, threading
from nlib import *
from c16 import listeners
import c17

TECHNIQUE = "runtime monitoring: a stand-in service manager records notifications with times and owns the socket, online check against the documented protocol"
NOTE = ("The stand-in passes blocking and non-blocking IPv4/IPv6 sockets with connections already waiting, wrong numbers and other processes' variables; every "
        "datagram sent to its notification socket is timed; clients connect at the instant of READY, during floods, stalled pipes, reloads; sockets the process "
        "listens on are read from /proc.")
RULE = ("one case = one start (or reload) under a service manager with notifications, sockets and service judged; distinct = distinct (activation, "
        "variables, load, interval); all are non-trivial")
ASSUMPTIONS = ["WATCHDOG_PID is not consulted by the server and not judged", "notification sockets are reachable from the server's root directory"]
SLACK = 0.25


class Manager:
    """Receives notifications."""

    def __init__(self, d, abstract=False, on=None):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        name = os.path.join(d, f"notify{random.randrange(10**9)}")
        if abstract:
            self.s.bind("\0" + name)
            self.env = "@" + name
        else:
            self.s.bind(name)
            self.env = name
        self.got, self.on = [], on
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while True:
            try:
                b = self.s.recv(65536)
            except OSError:
                return
            if b == b"stop":
                return
            for l in b.split(b"\n"):
                if l:
                    self.got.append((time.monotonic(), l))
                    if l == b"READY=1" and self.on:
                        self.on()

    def times(self, what):
        return [t for t, l in list(self.got) if l == what]

    def close(self):
        try:
            x = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
            x.sendto(b"stop", self.s.getsockname())
            x.close()
        except OSError:
            pass
        self.t.join(2)
        self.s.close()


class Unit:
    """A server under the stand-in."""

    def __init__(self, ctx, r, activated=True, family=socket.AF_INET, blocking=True, opts="", args=(), env=None, nsock=1, waiting=0, abstract=False,
                 listen=None, notify=True, conf_auth=None, daemon=False, auth=None, pid="self", variant="plain", fds=None):
        self.ctx = ctx
        self.d = ctx.dir("unit")
        self.fifo = Fifo(os.path.join(self.d, "cmd"))
        self.at_ready = []
        self.m = Manager(self.d, abstract, self.ready)
        self.pidfile = os.path.join(self.d, "pid")
        self.socks, self.early = [], []
        self.activated = activated
        host = "127.0.0.1" if family == socket.AF_INET else "::1"
        self.host = host
        for _ in range(nsock if activated else 0):
            s = socket.socket(family)
            s.bind((host, 0))
            s.listen(100)
            s.setblocking(blocking)
            self.socks.append(s)
        self.other = free_port()
        self.port = self.socks[0].getsockname()[1] if self.socks and pid == "self" else self.other
        for _ in range(waiting):
            self.early.append(socket.create_connection((host, self.socks[0].getsockname()[1]), 10))
        self.conf = os.path.join(self.d, "c.cfg")
        listen = listen or f"127.0.0.1:{self.other}"
        with open(self.conf, "w") as f:
            f.write(f"command_file = {q(self.fifo.path)}\ntemp_directory = {q(self.d)}\npid_file = {q(self.pidfile)}\nlog_level = 5\n"
                    + (f"listen = {q(listen)}\n" if listen else "") + opts + "\n" + (auth or 'authorize "id" {\n password = "pw"\n commands = ".*"\n}\n'))
        e = {k: v for k, v in os.environ.items() if not k.startswith(("NSCAMON", "LISTEN", "NOTIFY", "WATCHDOG"))}
        if notify:
            e["NOTIFY_SOCKET"] = self.m.env
        if activated:
            e["LISTEN_FDS"] = fds or str(nsock)
        e.update(env or {})
        self.args = list(args)
        socks = self.socks

        def pre():
            for i, s in enumerate(socks):
                os.dup2(s.fileno(), 100 + i)
            for i in range(len(socks)):
                os.dup2(100 + i, 3 + i)
                os.close(100 + i)
                os.set_inheritable(3 + i, True)
        build.server(variant)
        sh = 'exec "$@"'
        if pid == "self":
            sh = 'LISTEN_PID=$$ exec "$@"' if activated else sh
        elif pid is not None:
            e["LISTEN_PID"] = str(pid)
        self.err = os.path.join(self.d, "err")
        with open(self.err, "wb") as ef:
            self.p = ctx.spawn(["sh", "-c", sh, "sh", build.server(variant), "-c", self.conf, *self.args], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                               env=e, cwd=self.d, preexec_fn=pre, close_fds=False)
        self.t0 = time.monotonic()

    def ready(self):
        """At the very moment of READY."""
        try:
            lis = listening(self.port)
            c = socket.socket(socket.AF_INET if self.host == "127.0.0.1" else socket.AF_INET6)
            c.settimeout(10)
            ok = None
            try:
                c.connect((self.host, self.port))
                ok = True
            except OSError as e:
                ok = e
            c.close()
            self.at_ready.append((lis, ok, c17.read(self.pidfile).strip()))
        except Exception as e:
            self.at_ready.append((None, e, b""))

    def out(self):
        return c17.read(self.err).decode("latin-1")

    def wait_ready(self, n=1, what=""):
        if not wait_for(lambda: len(self.at_ready) >= n or self.p.poll() is not None, 20) or len(self.at_ready) < n:
            raise Violation(f"readiness is not reported {what}", f"{self.m.got} status {self.p.poll()} {self.out()[-800:]}", soft=True)
        lis, ok, pid = self.at_ready[n - 1]
        if not lis or ok is not True:
            raise Violation(f"readiness is reported before the server can serve {what}", f"listening {lis}, connecting {ok!r}; {self.out()[-500:]}")
        if not pid.isdigit():
            raise Violation(f"readiness is reported before the PID file is written {what}", repr(pid))

    def serve(self, n=1, what=""):
        for i in range(n):
            s = sess6(self.port) if self.host == "::1" else sess(self.port)
            a = s.push(b"[1500000001] U;%d\n" % i)
            if a != b"OKAY\r\n":
                raise Violation(f"the server does not serve {what}", repr(a))
            s.quit()
            self.ctx.count("sessions served")

    def once(self, n, what=""):
        k = len(self.m.times(b"READY=1"))
        if k != n:
            raise Violation(f"readiness is reported {k} times instead of {n} {what}", f"{self.m.got}")

    def judge_sockets(self, what=""):
        have = {p for _, p in listeners(self.p.pid)}
        want = {self.port}
        if have != want:
            raise Violation(f"the server listens on {sorted(have)} instead of {sorted(want)} {what}", self.out()[-500:])
        if self.socks and self.activated and self.port != self.other and listening(self.other):
            raise Violation(f"the server listens on its own address although it has a socket {what}", f"{self.other}")

    def stop(self):
        self.p.send_signal(signal.SIGTERM)
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            raise Violation("the server does not end", self.out()[-500:], soft=True)
        if rc != 0:
            raise Violation(f"the server ended with status {rc}", self.out()[-800:])

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.m.close()
        for s in self.socks + self.early:
            s.close()
        self.fifo.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sess6(port):
    c = socket.create_connection(("::1", port), 20)
    ep = tlspsk.Endpoint(c, "client", b"id", b"pw")
    ep.handshake(20)
    return Sess(ep, 20).moin()


def have6():
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


def activated(ctx, k):
    r = random.Random(f"{ctx.seed}/act{k}")
    fam = socket.AF_INET6 if have6() and k % 4 == 3 else socket.AF_INET
    blocking, waiting = k % 2 == 0, r.choice([0, 1, 5])
    how = r.choice(["conf", "-b", "none", "both"])
    args = r.choice([[], ["-F"], ["-l", "3"]])
    listen = None
    abstract = r.random() < .4
    with Unit(ctx, r, True, fam, blocking, args=args, waiting=waiting, abstract=abstract,
              listen="*" if how in ("none", "-b") else None) as u:
        if how in ("-b", "both"):
            u.close()
            with Unit(ctx, r, True, fam, blocking, args=args + ["-b", f"127.0.0.1:{u.other}"], waiting=waiting, abstract=abstract) as u2:
                u2.other = u.other
                _activated(ctx, r, u2, k, (fam == socket.AF_INET6, blocking, waiting, how, tuple(args)))
        else:
            _activated(ctx, r, u, k, (fam == socket.AF_INET6, blocking, waiting, how, tuple(args)))


def _activated(ctx, r, u, k, key):
    u.wait_ready()
    u.judge_sockets()
    # Those who came before the server was there are served first.
    for c in u.early:
        if u.host == "127.0.0.1":
            ep = tlspsk.Endpoint(c, "client", b"id", b"pw")
            ep.handshake(20)
            if Sess(ep, 20).moin().push(b"[1] E;\n") != b"OKAY\r\n":
                raise Violation("a connection made before the start is not served")
            ctx.count("waiting connections served")
    u.serve(3)
    # Several at once and with pauses: a blocking accept would hold up the others.
    a = sess(u.port) if u.host == "127.0.0.1" else sess6(u.port)
    time.sleep(0.05)
    if a.push(b"[1] F;\n") != b"OKAY\r\n":
        raise Violation("a session is not served while nobody else connects")
    u.serve(1)
    a.quit()
    u.once(1)
    n = 1
    for i in range(r.choice([1, 2, 3])):
        late = []
        before = len(u.at_ready)
        u.p.send_signal(signal.SIGHUP)
        for _ in range(3):
            try:
                late.append(socket.create_connection((u.host, u.port), 10))
            except OSError as e:
                raise Violation("the inherited socket was closed for a reload", f"{e} {u.out()[-500:]}")
            time.sleep(r.choice([0, 0.01]))
        n += 1
        u.wait_ready(n, "after a reload")
        u.judge_sockets("after a reload")
        u.serve(1, "after a reload")
        for c in late:
            c.close()
        if not r.random() < .3:
            u.once(n, "after a reload")
        ctx.count("reloads")
        ctx.case(("reload", key, i))
    u.stop()
    u.once(n, "in the end")
    # The socket belongs to the manager.
    if not listening(u.port):
        raise Violation("the inherited socket was shut down")
    ctx.case(("activated", key))
    ctx.count("activated starts")


def foreign(ctx, k):
    """Variables meant for another process are ignored; so is none at all."""
    r = random.Random(f"{ctx.seed}/for{k}")
    kind = ["parent", "none", "one", "no variables", "other fds", "parent many"][k % 6]
    kw = dict(activated=True, args=["-F"])
    if kind == "parent":
        kw["pid"] = os.getpid()
    elif kind == "none":
        kw["pid"] = None
    elif kind == "one":
        kw["pid"] = 1
    elif kind == "no variables":
        kw["activated"] = False
    elif kind == "other fds":
        kw.update(pid=os.getpid(), fds="7")
    elif kind == "parent many":
        kw.update(pid=1, fds="2", nsock=2)
    with Unit(ctx, r, **kw) as u:
        u.wait_ready(1, f"({kind})")
        have = {p for _, p in listeners(u.p.pid)}
        if have != {u.other}:
            raise Violation(f"variables meant for another process are heeded ({kind})", f"listens on {have} instead of {u.other}; {u.out()[-400:]}")
        u.serve(1)
        u.once(1)
        if r.random() < .5:
            u.p.send_signal(signal.SIGHUP)
            u.wait_ready(2, "after a reload")
            u.serve(1)
        u.stop()
        ctx.case(("foreign", kind))
        ctx.count("starts with others' variables")


def foreign_daemon(ctx):
    """Without variables of its own the server goes into the background as ever, and its readiness is told once."""
    r = random.Random(ctx.seed)
    for pid in (None, 1):
        with Unit(ctx, r, True, pid=pid) as u:
            if u.p.wait(20) != 0:
                raise Violation("the daemon does not start with others' variables", u.out()[-500:])
            p = wait_for(lambda: int(c17.read(u.pidfile) or 0), 10)
            c17.DAEMONS.append(p)
            if not wait_for(lambda: u.at_ready, 10):
                raise Violation("a daemon does not report readiness", f"{u.m.got}", soft=True)
            if {x for _, x in listeners(p)} != {u.other}:
                raise Violation("variables meant for another process are heeded by a daemon", f"{listeners(p)}")
            u.serve(1)
            os.kill(p, signal.SIGTERM)
            wait_for(lambda: not c17.alive(p), 10)
            u.once(1, "by a daemon")
            ctx.case(("foreign daemon", pid))


def too_many(ctx, n):
    with Unit(ctx, random.Random(n), True, nsock=n, args=["-F"] if n % 2 else []) as u:
        try:
            rc = u.p.wait(20)
        except subprocess.TimeoutExpired:
            raise Violation(f"{n} sockets are accepted", u.out()[-500:])
        if rc <= 0 or not u.out().strip():
            raise Violation(f"{n} sockets are not refused with an error", f"{rc} {u.out()}")
        if u.m.times(b"READY=1"):
            raise Violation("readiness is reported by a server that did not start", f"{u.m.got}")
        if listening(u.other):
            raise Violation("a server that was refused listens")
        ctx.case(("too many", n))
        ctx.count("starts refused")


def failed(ctx, kind):
    """No readiness from a server that fails to start."""
    r = random.Random(kind)
    kw = dict(activated=r.random() < .5, args=["-F"])
    hold = None
    if kind == "conf":
        kw["opts"] = "bogus = 1"
    elif kind == "auth":
        kw["auth"] = "\n"
    elif kind == "cipher":
        kw["opts"] = 'tls_ciphers = "BOGUS"'
    elif kind == "temp":
        kw["opts"] = 'temp_directory = "/nonexistent/t"'
    elif kind == "port":
        kw["activated"] = False
        hold = socket.socket()
        hold.bind(("127.0.0.1", 0))
        hold.listen(1)
        kw["listen"] = f"127.0.0.1:{hold.getsockname()[1]}"
    elif kind == "pid":
        kw["opts"] = 'pid_file = "/nonexistent/p/pid"'
    elif kind == "option":
        kw["args"] = ["-F", "extra"]
    with Unit(ctx, r, **kw) as u:
        try:
            rc = u.p.wait(20)
        except subprocess.TimeoutExpired:
            raise Violation(f"a server that cannot start does ({kind})", u.out()[-500:])
        time.sleep(0.05)
        if u.m.times(b"READY=1"):
            raise Violation("readiness is reported by a server that did not start", f"{kind} {u.m.got}")
        if rc <= 0:
            raise Violation("a failed start does not end with an error", f"{kind} {rc}")
        ctx.case(("failed", kind))
        ctx.count("failed starts")
    if hold:
        hold.close()


LOADS = ["idle", "idle", "flood", "stalled pipe", "handshakes", "busy session", "reload", "junk", "reload twice", "big", "slow reader"]


def load_on(kind, u, end, r, errs):
    def flood():
        while time.monotonic() < end:
            try:
                s = sess(u.port)
                for i in range(10):
                    s.push(b"[1] L;" + b"x" * r.choice([1, 100, 5000]) + b"\n")
                s.quit()
            except (Closed, TLSError, OSError, Violation):
                time.sleep(0.01)

    def hand():
        while time.monotonic() < end:
            try:
                c = socket.create_connection(("127.0.0.1", u.port), 5)
                c.send(r.choice([b"", b"\x16\x03\x01\x00", b"x" * 100]))
                if r.random() < .5:
                    c.close()
                else:
                    time.sleep(0.002)
            except OSError:
                time.sleep(0.01)

    def busy():
        try:
            s = sess(u.port)
            while time.monotonic() < end:
                s.push(b"[1] B;1\n")
            s.quit()
        except (Closed, TLSError, OSError):
            pass

    def big():
        try:
            s = sess(u.port, timeout=60)
            while time.monotonic() < end:
                s.push(b"[1] B;" + b"y" * 4000000 + b"\n")
            s.quit()
        except (Closed, TLSError, OSError, TimeoutError):
            pass

    def slow():
        try:
            s = sess(u.port)
            while time.monotonic() < end:
                s.e.send(b"NOOP\r\n" * 200)
                time.sleep(0.01)
        except (Closed, TLSError, OSError, TimeoutError):
            pass
    fs = {"flood": [flood] * 4, "stalled pipe": [busy, flood], "handshakes": [hand] * 3, "busy session": [busy], "junk": [hand, flood], "big": [big], "slow reader": [slow]}.get(kind, [])
    ts = [threading.Thread(target=f, daemon=True) for f in fs]
    for t in ts:
        t.start()
    return ts


# Long intervals, at a clock that runs that many times as fast.
WARPED = [(30000000, 12), (90000000, 40), (600000000, 250), (2200000000, 800), (3600000000, 1200), (5000000000, 2000), (86400000000, 30000), (15500000, 5)]


def watchdog(ctx, k, warp=None):
    r = random.Random(f"{ctx.seed}/wd{k}/{warp}")
    usec = [2000000, 800000, 3000000, 900000, 1000000, 1500000, 950000, 4000000, 700000, 2500000][k % 10] if not ctx.thorough or k % 5 else r.randrange(600000, 30000000)
    env, factor = {}, 1
    if warp:
        usec, factor = warp
        env = {"LD_PRELOAD": build.shim("warpshim.c"), "NSCA_WARP": str(factor)}
    load = LOADS[k % len(LOADS)]
    act = r.random() < .5
    sec = usec / 1e6 / factor
    env["WATCHDOG_USEC"] = str(usec)
    with Unit(ctx, r, act, args=["-F", "-l", "1"] if not act else ["-l", "1"], env=env, blocking=r.random() < .5,
              opts="max_command_size = 5000000\nmax_queue_size = 64" + ("\ntimeout = 0" if warp else "")) as u:
        u.wait_ready()
        start = u.m.times(b"READY=1")[0]
        span = max(3.2 * sec, 4.0) if not ctx.thorough else max(6 * sec, 10)
        end = time.monotonic() + span
        if load == "stalled pipe":
            u.fifo.pause()
        ts = load_on(load, u, end, r, [])
        marks = [start]
        n = 1
        if load.startswith("reload"):
            for i in range(2 if load == "reload twice" else 1):
                time.sleep(sec * r.uniform(.3, .9))
                u.p.send_signal(signal.SIGHUP)
                n += 1
                u.wait_ready(n, "after a reload")
        stall = 0.0
        while time.monotonic() < end:
            a = time.monotonic()
            time.sleep(0.02)
            stall = max(stall, time.monotonic() - a - 0.02)
        for t in ts:
            t.join(70)
        u.fifo.resume()
        if u.p.poll() is not None:
            raise Violation("the server ended", f"{u.p.returncode} {u.out()[-600:]}")
        k_ = sorted([start] + u.m.times(b"WATCHDOG=1") + u.m.times(b"READY=1"))
        k_ = [t for t in k_ if t <= end] + [end]
        gaps = [b - a for a, b in zip(k_, k_[1:])]
        worst = max(gaps)
        lim = sec / 2 + SLACK + 3 * stall
        if worst > lim:
            raise Violation("keep-alive messages do not come at less than half the requested interval", f"interval {usec} us{f' at {factor} times the speed' if warp else ''}, load {load}: longest gap {worst:.3f} s, "
                            f"{len(k_)} messages in {span:.1f} s; gaps {[round(g, 2) for g in gaps]} (stall {stall:.3f})", soft=True)
        inner = sorted(gaps[:-1])
        if load in ("idle", "busy session") and inner and inner[len(inner) // 2] >= sec / 2 + 0.02:
            raise Violation("keep-alive messages do not come at less than half the requested interval", f"interval {usec} us{f' at {factor} times the speed' if warp else ''}, load {load}: gaps "
                            f"{[round(g, 3) for g in gaps]}", soft=True)
        if not act or load != "big":
            u.serve(1)
        u.once(n)
        u.stop()
        ctx.case(("watchdog", usec, load, act))
        ctx.count("keep-alive messages timed", len(k_) - 2)


def accelerated(ctx, k):
    watchdog(ctx, k + k // len(WARPED), WARPED[k % len(WARPED)])


def no_watchdog(ctx, val):
    """Without an interval the server still reports readiness and serves."""
    with Unit(ctx, random.Random(str(val)), val is not None and len(val) % 2 == 0, args=["-F"], env={} if val is None else {"WATCHDOG_USEC": val}) as u:
        u.wait_ready()
        u.serve(1)
        time.sleep(0.2)
        if val in (None, "0") and u.m.times(b"WATCHDOG=1"):
            raise Violation("keep-alive messages are sent although none are wanted", f"{val!r} {u.m.got}")
        u.once(1)
        u.stop()
        ctx.case(("no watchdog", val))


def no_manager(ctx, kind):
    """A missing or dead notification socket does not keep the server from serving."""
    env = {"missing": {"NOTIFY_SOCKET": "/nonexistent/notify"}, "empty": {"NOTIFY_SOCKET": ""}, "bad": {"NOTIFY_SOCKET": "relative"}, "none": {}}[kind]
    env["WATCHDOG_USEC"] = "1000000"
    with Unit(ctx, random.Random(kind), kind in ("missing", "none"), args=["-F"], notify=False, env=env) as u:
        if not wait_for(lambda: c17.read(u.pidfile).strip() == str(u.p.pid).encode() or u.p.poll() is not None, 20) or u.p.poll() is not None:
            raise Violation(f"the server does not start with {kind} notification socket", u.out()[-500:], soft=True)
        u.serve(2)
        time.sleep(0.6)
        u.serve(1)
        u.stop()
        ctx.case(("no manager", kind))


def run(ctx):
    c17.adopt()
    build.server("plain")
    jobs = [("watchdog", k) for k in range(ctx.n(11, 66))]
    jobs += [("accelerated", k) for k in range(ctx.n(len(WARPED), 4 * len(WARPED)))]
    jobs += [("activated", k) for k in range(ctx.n(12, 80))]
    jobs += [("foreign", k) for k in range(ctx.n(6, 28))]
    jobs += [("foreign_daemon", None)]
    jobs += [("too_many", k) for k in ((2, 3) if not ctx.thorough else (2, 3, 4, 9))]
    jobs += [("failed", k) for k in ("conf", "auth", "cipher", "temp", "port", "pid", "option")]
    jobs += [("no_watchdog", v) for v in (None, "0", "x", "")]
    jobs += [("no_manager", v) for v in ("missing", "empty", "bad", "none")]

    def one(j):
        if ctx.left(60, 900) > 0:
            return globals()[j[0]](ctx, *([j[1]] if j[0] != "foreign_daemon" else []))
    one.__name__ = "scenario"
    try:
        ctx.pmap(one, jobs, 10)
    finally:
        for p in c17.DAEMONS:
            try:
                if p and b"nsca-ng" in c17.read(f"/proc/{p}/cmdline"):
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
