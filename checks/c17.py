"""C17: daemon mode, PID file and signals.  Oracle: what /proc, the PID file and real clients show
before and after each event, against the documented behaviour."""
import ctypes, fcntl, random, threading
from nlib import *
from c16 import listeners, launch

TECHNIQUE = "runtime monitoring: /proc, PID file and client observations around start, second start, signals and reloads, against the documented behaviour"
NOTE = ("Real daemons (adopted by the check, so that their exit status is seen) are started, doubled, raced, killed, signalled and reloaded in random order, "
        "with clients in every state of a session and data waiting; descriptors, sessions, PID file contents, modes and locks, exit statuses and the served "
        "configuration are compared with a model.")
RULE = ("one case = one observed event (start, refused start, take-over, signal, reload) with all its assertions; distinct = distinct (event, circumstances); "
        "all are non-trivial")
ASSUMPTIONS = ["absolute paths in the configuration and arguments (a daemon changes into the root directory)"]

PR_SET_CHILD_SUBREAPER = 36


def adopt():
    ctypes.CDLL(None).prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0)


class Daemon:
    """A server in daemon mode."""

    def __init__(self, ctx, d=None, conf_pid=True, opts="", umask=0o022, port=None, pidfile=None, auth=None, tty=False, wait=True, extra=()):
        self.ctx = ctx
        self.dir = d or ctx.dir("dm")
        self.pidfile = pidfile or os.path.join(self.dir, "pid")
        self.cmd = os.path.join(self.dir, "cmd")
        if not os.path.exists(self.cmd):
            self.fifo = Fifo(self.cmd)
        self.c = os.path.join(self.dir, f"c{random.randrange(10**9)}.cfg")
        self.conf_pid, self.umask, self.tty = conf_pid, umask, tty
        self.pid = None
        self.extra = list(extra)
        for _ in range(5):
            self.port = port or free_port()
            self.write(opts, auth)
            self.status, self.out, self.eof = self.launch()
            if self.status != 0 and b"Cannot bind" in self.out and b"in use" in self.out and port is None:
                continue
            break
        self.started = time.monotonic()
        if wait:
            if self.status != 0:
                raise Violation("the daemon did not start", f"{self.status} {self.out!r}")
            # The socket has to be in place already.
            if not listening(self.port):
                raise Violation("the daemon detached before its socket was listening", self.out.decode("latin-1"))
            self.wait_pid()

    def write(self, opts="", auth=None, port=None):
        with open(self.c, "w", encoding="latin-1") as f:
            f.write(f"command_file = {q(self.cmd)}\ntemp_directory = {q(self.dir)}\nlisten = \"127.0.0.1:{port or self.port}\"\n"
                    + (f"pid_file = {q(self.pidfile)}\n" if self.conf_pid else "") + opts + "\n"
                    + (auth or 'authorize "id" {\n password = "pw"\n commands = ".*"\n}\n'))

    def launch(self):
        r, w = os.pipe()
        argv = [build.server("plain"), "-c", self.c] + ([] if self.conf_pid else ["-P", self.pidfile]) + self.extra
        e = {k: v for k, v in os.environ.items() if not k.startswith(("NSCAMON", "LISTEN", "NOTIFY", "WATCHDOG"))}
        um = self.umask

        def pre():
            os.setsid()
            os.umask(um)
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=w, stderr=w, env=e, cwd=self.dir, preexec_fn=pre)
        self.launched = p.pid
        os.close(w)
        try:
            st = p.wait(30)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            os.close(r)
            raise Violation("the program did not detach", f"{argv}", soft=True)
        listening_at_once = listening(self.port)
        out, eof = b"", False
        end = time.monotonic() + 5
        fcntl.fcntl(r, fcntl.F_SETFL, os.O_NONBLOCK)
        while time.monotonic() < end:
            try:
                b = os.read(r, 65536)
            except BlockingIOError:
                time.sleep(0.005)
                continue
            if not b:
                eof = True
                break
            out += b
        os.close(r)
        self.listening_at_once = listening_at_once
        return st, out, eof

    def wait_pid(self):
        def get():
            try:
                with open(self.pidfile) as f:
                    t = f.read()
                return int(t) if t.strip() else None
            except (OSError, ValueError):
                return None
        self.pid = wait_for(lambda: (lambda p: p if p and alive(p) else None)(get()), 15)
        if not self.pid:
            raise Violation("the PID file does not get the PID of a running daemon", f"{self.pidfile}: {read(self.pidfile)!r}", soft=True)
        DAEMONS.append(self.pid)
        return self.pid

    def check(self, served=True):
        """Everything that has to be true of a running daemon."""
        if not self.eof:
            raise Violation("the daemon keeps its parent's standard output or error open", self.out.decode("latin-1"), soft=True)
        if not self.listening_at_once:
            raise Violation("the daemon detached before its socket was listening")
        p = self.pid
        if p == self.launched:
            raise Violation("the daemon did not fork")
        st = stat_of(p)
        if st["session"] == os.getsid(0) or st["session"] == self.launched or st["tty"] != 0:
            raise Violation("the daemon did not leave its session", f"{st} launched {self.launched}")
        if read(f"/proc/{p}/cmdline").split(b"\0")[0] != build.server("plain").encode():
            raise Violation("the PID file holds the PID of another process", f"{p} {read(f'/proc/{p}/cmdline')!r}")
        for fd in (0, 1, 2):
            t = os.readlink(f"/proc/{p}/fd/{fd}")
            if t != "/dev/null":
                raise Violation("the daemon did not detach from standard input, output and error", f"{fd} -> {t}")
        sb = os.stat(self.pidfile)
        if stat.S_IMODE(sb.st_mode) != 0o600 & ~self.umask and not getattr(self, "stale", False):
            raise Violation("the PID file's mode is not 0600", oct(sb.st_mode))
        if read(self.pidfile).strip() != str(p).encode():
            raise Violation("the PID file does not hold the daemon's PID", f"{read(self.pidfile)!r} {p}")
        if {a[1] for a in listeners(p)} != {self.port}:
            raise Violation("the daemon does not listen on its port", f"{listeners(p)} {self.port}")
        if served:
            s = sess(self.port)
            if s.push(b"[1] X\n") != b"OKAY\r\n":
                raise Violation("the daemon does not serve")
            s.quit()

    def signal(self, sig):
        os.kill(self.pid, sig)

    def wait_exit(self, timeout=30):
        """Exit status of the (adopted) daemon."""
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
            except ChildProcessError:
                return None if alive(self.pid) else 0
            if p:
                return os.waitstatus_to_exitcode(st)
            time.sleep(0.01)
        raise Violation("the daemon does not end", f"pid {self.pid}", soft=True)

    def close(self):
        for p in [self.pid] if self.pid else []:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        if hasattr(self, "fifo"):
            self.fifo.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


DAEMONS = []


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b""


def alive(p):
    st = stat_of(p)
    return st is not None and st["state"] not in "ZX"


def stat_of(p):
    try:
        with open(f"/proc/{p}/stat") as f:
            w = f.read().rsplit(")", 1)[1].split()
    except OSError:
        return None
    return {"state": w[0], "ppid": int(w[1]), "pgrp": int(w[2]), "session": int(w[3]), "tty": int(w[4])}


def fd_kinds(pid):
    """Kinds of descriptors above standard error."""
    out = []
    for f in os.listdir(f"/proc/{pid}/fd"):
        try:
            if int(f) > 2:
                out.append(re.sub(r"\[\d+\]|\d+$", "", os.readlink(f"/proc/{pid}/fd/{f}")))
        except OSError:
            pass
    return sorted(out)


def clients(port, r, n=6):
    """Clients in different states of a session."""
    out = []
    for k in range(n):
        k = k % 6
        try:
            if k == 0:
                out.append(socket.create_connection(("127.0.0.1", port), 10))
            elif k == 1:
                s = socket.create_connection(("127.0.0.1", port), 10)
                s.send(b"\x16\x03\x01\x02")
                out.append(s)
            elif k == 2:
                out.append(tlspsk.session(port, b"id", b"pw", 10).sock)
            elif k == 3:
                out.append(sess(port))
            elif k == 4:
                s = sess(port)
                s.cmd(b"PUSH 100000" if r.random() < .1 else b"PUSH 10000")
                s.e.send(b"[1] C;abc")
                out.append(s)
            else:
                s = sess(port)
                s.push(b"[1500000001] CMD;%d\n" % r.randrange(10**9))
                out.append(s)
        except AttributeError:
            out.append(tlspsk.session(port, b"id", b"pw", 10))
    return out


def start_and_double(ctx, k):
    r = random.Random(f"{ctx.seed}/dbl{k}")
    umask = r.choice([0, 0o22, 0o27, 0o77])
    with Daemon(ctx, conf_pid=r.random() < 0.5, umask=umask) as d:
        d.check()
        ctx.case(("daemon", d.conf_pid, umask))
        before = (os.stat(d.pidfile).st_ino, read(d.pidfile), os.stat(d.pidfile).st_mtime_ns)
        keep = clients(d.port, r, r.choice([0, 6]))
        for how in r.sample(["daemon", "fg", "sameport", "conf", "twice"], 3):
            e = os.path.join(d.dir, "second")
            os.makedirs(e, exist_ok=True)
            os.chmod(e, 0o755)
            if how == "fg":
                c2 = os.path.join(e, "c.cfg")
                port = free_port()
                with open(c2, "w") as f:
                    f.write(f"command_file = {q(d.cmd)}\ntemp_directory = {q(e)}\npid_file = {q(d.pidfile)}\n" + 'authorize "id" {\n password = "pw"\n}\n')
                srv = launch(ctx, e, ["-F", "-c", c2, "-b", f"127.0.0.1:{port}"])
                try:
                    st = srv.p.wait(20)
                except subprocess.TimeoutExpired:
                    srv.p.kill()
                    srv.p.wait()
                    raise Violation("a second server with the same PID file started", f"{how} {srv.stderr()}")
                out = srv.stderr()
            else:
                d2 = None
                try:
                    d2 = Daemon(ctx, d=e, pidfile=d.pidfile, conf_pid=how != "conf", port=d.port if how == "sameport" else None, wait=False)
                    st, out, port = d2.status, d2.out, d2.port
                    srv = None
                    if st == 0:
                        raise Violation("a second server with the same PID file started", f"{how} {out}")
                finally:
                    if d2 is not None and hasattr(d2, "fifo"):
                        d2.fifo.shutdown()
                        os.unlink(d2.cmd)
            if st <= 0 or not out.strip():
                raise Violation("a second server with the same PID file was not refused with an error", f"{how}: {st} {out!r}")
            if b"NSCAMON listen" in out or port != d.port and listening(port):
                raise Violation("a refused second server listened", f"{how}: {out!r}")
            after = (os.stat(d.pidfile).st_ino if os.path.exists(d.pidfile) else None, read(d.pidfile),
                     os.stat(d.pidfile).st_mtime_ns if os.path.exists(d.pidfile) else None)
            if after != before:
                raise Violation("a refused second server touched the PID file of the running one", f"{how}: {before} -> {after}")
            if not alive(d.pid):
                raise Violation("a refused second server ended the running one", how)
            d.check()
            ctx.case(("second", how, bool(keep)))
            ctx.count("second servers refused")
        sig = r.choice([signal.SIGTERM, signal.SIGINT])
        d.signal(sig)
        end(ctx, d, sig)
        for s in keep:
            s.close()


def end(ctx, d, sig):
    st = d.wait_exit()
    if st is None:
        raise Inconclusive("the daemon was not adopted")
    if st != 0:
        raise Violation(f"the daemon did not end with status 0 after signal {sig}", f"status {st}")
    if os.path.exists(d.pidfile):
        raise Violation(f"the PID file is still there after signal {sig}", repr(read(d.pidfile)))
    if listening(d.port):
        raise Violation("the socket is still there")
    d.pid = None
    ctx.case(("signal", sig, "daemon"))
    ctx.count("orderly ends")


def stale(ctx, k):
    """A PID file nobody holds is taken over."""
    r = random.Random(f"{ctx.seed}/st{k}")
    d = ctx.dir("stale")
    pf = os.path.join(d, "pid")
    kind = ["killed", "garbage", "empty", "long", "live", "huge", "binary"][k % 7]
    sleeper = None
    if kind == "killed":
        with Daemon(ctx, d=d, pidfile=pf) as a:
            os.kill(a.pid, signal.SIGKILL)
            a.wait_exit()
            a.pid = None
        if not os.path.exists(pf):
            raise Inconclusive("no PID file left")
        os.unlink(a.cmd)
    else:
        if kind == "live":
            sleeper = ctx.spawn(["sleep", "100"])
        with open(pf, "wb") as f:
            f.write({"garbage": b"hello\n", "empty": b"", "long": b"1234567890123456789012345678901234567890\n", "live": b"%d" % (sleeper.pid if sleeper else 0),
                     "huge": b"9" * 100000, "binary": bytes(range(256))}[kind])
        os.chmod(pf, 0o600)
    with Daemon(ctx, d=d, pidfile=pf) as b:
        b.check()
        if sleeper and sleeper.poll() is not None:
            raise Violation("an unrelated process was ended")
        b.signal(signal.SIGTERM)
        end(ctx, b, signal.SIGTERM)
    if sleeper:
        sleeper.kill()
        sleeper.wait()
    ctx.case(("stale", kind))
    ctx.count("stale PID files taken over")


def race(ctx, k):
    """Several servers started at once with the same PID file: exactly one is left."""
    d = ctx.dir("race")
    pf = os.path.join(d, "pid")
    n = 5
    ps = []
    ports = [free_port() for _ in range(n)]
    build.server("plain")
    for i in range(n):
        e = os.path.join(d, str(i))
        os.mkdir(e)
        with open(os.path.join(e, "c.cfg"), "w") as f:
            f.write(f"command_file = {q(os.path.join(e, 'cmd'))}\ntemp_directory = {q(e)}\npid_file = {q(pf)}\n" + 'authorize "id" {\n password = "pw"\n}\n')
    if k % 2:
        with open(pf, "w") as f:
            f.write("12345")
    for i in range(n):
        ps.append(launch(ctx, os.path.join(d, str(i)), ["-F", "-c", os.path.join(d, str(i), "c.cfg"), "-b", f"127.0.0.1:{ports[i]}"], text=False))
    try:
        def settled():
            return all(p.p.poll() is not None or listening(ports[i]) for i, p in enumerate(ps))
        if not wait_for(settled, 30):
            raise Violation("servers started at once do not settle", [p.stderr() for p in ps], soft=True)
        left = [i for i, p in enumerate(ps) if p.p.poll() is None]
        if any(b"in use" in p.stderr() for p in ps):
            raise Inconclusive("port taken")
        if len(left) != 1:
            raise Violation(f"{len(left)} of {n} servers started at once with the same PID file are left", [p.stderr()[-300:] for p in ps])
        w = ps[left[0]]
        if not wait_for(lambda: read(pf).strip() == str(w.p.pid).encode(), 5):
            raise Violation("the PID file does not hold the PID of the only server left", f"{read(pf)!r} {w.p.pid}")
        for i, p in enumerate(ps):
            if i != left[0] and (p.p.returncode <= 0 or not p.stderr()):
                raise Violation("a refused server did not fail with a message", f"{p.p.returncode} {p.stderr()}")
        w.p.terminate()
        if w.p.wait(20) != 0 or os.path.exists(pf):
            raise Violation("the server did not end with status 0 and the PID file removed", f"{w.p.returncode} {os.path.exists(pf)}")
        ctx.case(("race", k, left[0]))
        ctx.count("servers raced", n)
    finally:
        for p in ps:
            if p.p.poll() is None:
                p.p.kill()
                p.p.wait()


def foreground(ctx, k):
    """Signals in the foreground, with clients in any state and data waiting."""
    r = random.Random(f"{ctx.seed}/fg{k}")
    sig = [signal.SIGTERM, signal.SIGINT][k % 2]
    d = ctx.dir("fg")
    pf = os.path.join(d, "pid")
    srv = Server(ctx, dir=d, variant="plain", opts=f"pid_file = {q(pf)}", mon=True, reading=r.random() < 0.7, loglevel=3)
    keep = []
    try:
        if r.random() < 0.3:
            srv.set_ctl("aiodelay=300")
        if not wait_for(lambda: read(pf).strip() == str(srv.p.pid).encode(), 10):
            raise Violation("the PID file does not hold the server's PID", f"{read(pf)!r} {srv.p.pid}", soft=True)
        if stat.S_IMODE(os.stat(pf).st_mode) != 0o600:
            raise Violation("the PID file's mode is not 0600", oct(os.stat(pf).st_mode))
        st = stat_of(srv.p.pid)
        if st["session"] != os.getsid(0):
            raise Violation("a server in the foreground left the session", f"{st}")
        keep = clients(srv.port, r, r.choice([0, 3, 6, 12]))
        for i in range(r.choice([0, 0, 40])):
            s = sess(srv.port)
            s.push(b"[1500000000] A;" + b"x" * 9000 + b"\n")
            keep.append(s)
        for _ in range(r.choice([1, 1, 3])):
            if srv.p.poll() is None:
                srv.p.send_signal(sig)
        try:
            rc = srv.p.wait(30)
        except subprocess.TimeoutExpired:
            raise Violation(f"the server does not end after signal {sig}", srv.stderr()[-500:], soft=True)
        if rc != 0:
            raise Violation(f"the server did not end with status 0 after signal {sig}", f"{rc} {srv.stderr()[-500:]}")
        if os.path.exists(pf):
            raise Violation("the PID file is still there")
        ctx.case(("foreground", sig, len(keep)))
        ctx.count("orderly ends")
    finally:
        for s in keep:
            s.close()
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
        srv.fifo.shutdown()


def reload_(ctx, k):
    """SIGHUP, again and again, each time with another configuration."""
    r = random.Random(f"{ctx.seed}/hup{k}")
    daemon = k % 2 == 0
    auth = lambda i, key: f'authorize "{i}" {{\n password = "{key}"\n commands = ".*"\n}}\n'
    ident, key = "id", "pw"
    if daemon:
        d = Daemon(ctx, opts="log_level = 5")
        d.check()
        port, pid, cdir = d.port, d.pid, d.dir
    else:
        cdir = ctx.dir("hup")
        d = Daemon.__new__(Daemon)
        d.ctx, d.dir, d.conf_pid, d.pid = ctx, cdir, True, None
        d.cmd, d.c, d.pidfile = os.path.join(cdir, "cmd"), os.path.join(cdir, "c.cfg"), os.path.join(cdir, "pid")
        d.fifo = Fifo(d.cmd)
        d.port = port = free_port()
        d.write()
        srv = launch(ctx, cdir, ["-F", "-c", d.c], text=False)
        if not wait_for(lambda: listening(port) or srv.p.poll() is not None, 20) or srv.p.poll() is not None:
            d.fifo.shutdown()
            raise Inconclusive("did not start: %r" % srv.stderr())
        pid = srv.p.pid
        if not wait_for(lambda: read(d.pidfile).strip() == str(pid).encode(), 10):
            raise Violation("the PID file does not hold the server's PID", f"{read(d.pidfile)!r} {pid}", soft=True)
    keep = []
    try:
        fresh = None
        for i in range(ctx.n(4, 12)):
            s = sess(port, ident.encode(), key.encode())
            s.push(b"[1] before\n")
            s.quit()
            if fresh is None:
                wait_for(lambda: "socket:" in fd_kinds(pid), 2)
                time.sleep(0.05)
                fresh = fd_kinds(pid)
            try:
                keep += clients(port, r, r.choice([0, 6, 12])) if (ident, key) == ("id", "pw") else \
                    [sess(port, ident.encode(), key.encode()), socket.create_connection(("127.0.0.1", port))]
            except (Closed, TLSError, OSError):
                pass
            if i == 1 and k < ctx.n(3, 12):
                try:
                    for _ in range(ctx.n(400, r.choice([400, 2000]))):
                        keep.append(socket.create_connection(("127.0.0.1", port), 10))
                    # the server has taken them all
                    wait_for(lambda: fd_kinds(pid).count("socket:") >= len(keep), 10)
                except OSError:
                    pass
                ctx.count("reloads with hundreds of connections")
            oport, oid, okey, omax = port, ident, key, None
            newport = free_port() if r.random() < 0.5 else port
            ident = r.choice(["id", "other", "third"])
            key = r.choice(["pw", "second", f"k{r.randrange(10**6)}"])
            omax = r.choice([100, 1000, 4000])
            newcmd = d.cmd
            if r.random() < 0.4:
                newcmd = os.path.join(cdir, f"cmd{i}")
                nf = Fifo(newcmd)
                keep.append(nf)
            d.cmd = newcmd
            d.port = newport
            d.write(opts=f"max_command_size = {omax}", auth=auth(ident, key))
            os.kill(pid, signal.SIGHUP)
            if daemon:
                d.pid = pid
                if d.wait_exit() not in (0, None):
                    raise Violation("a reloading daemon's first process failed")
                if not wait_for(lambda: listening(newport), 20):
                    raise Violation("the server does not listen again after SIGHUP", f"port {newport}", soft=True)
                d.wait_pid()
                pid = d.pid
            port = newport
            # the new configuration is served ...
            end_ = time.monotonic() + 20
            while True:
                try:
                    s = sess(port, ident.encode(), key.encode(), 10)
                    break
                except (Closed, TLSError, OSError, TimeoutError) as e:
                    if time.monotonic() > end_:
                        raise Violation("the new configuration is not served after SIGHUP", f"{ident} {key} {port}: {e}; alive: {alive(pid)}"
                                        + (f" {srv.stderr()[-600:]}" if not daemon else ""), soft=True)
                    if not daemon and srv.p.poll() is not None:
                        if b"in use" in srv.stderr():
                            raise Inconclusive("port taken")
                        raise Violation("the server ended after SIGHUP", f"{srv.p.returncode} {srv.stderr()[-600:]}")
                    time.sleep(0.02)
            if not s.cmd(b"PUSH %d" % (omax + 1)).startswith(b"FAIL") or s.cmd(b"PUSH %d" % omax) != b"OKAY\r\n":
                raise Violation("another size limit is in effect after SIGHUP", f"{s.log[-4:]} instead of {omax}")
            s.e.send((b"[%d] after " % i).ljust(omax - 1, b"z") + b"\n")
            if s.line() != b"OKAY\r\n":
                raise Violation("the reloaded server refuses a command", repr(s.log[-1]))
            s.quit()
            f = next((x for x in reversed(keep) if isinstance(x, Fifo) and x.path == newcmd), getattr(d, "fifo", None))
            if f is not None and f.path == newcmd and not wait_for(lambda: (b"[%d] after z" % i) in f.snapshot(), 15):
                raise Violation("commands do not arrive where the new configuration says", newcmd, soft=True)
            # ... the old one is not
            if (oid, okey) != (ident, key):
                try:
                    sess(port, oid.encode(), okey.encode(), 5)
                    raise Violation("the old password is still accepted after SIGHUP", f"{oid} {okey}")
                except (Closed, TLSError):
                    pass
            if oport != port and listening(oport):
                raise Violation("the old socket is still there after SIGHUP", f"{listeners(pid)}")
            if {a[1] for a in listeners(pid)} != {port}:
                raise Violation("the server does not listen where it should after SIGHUP", f"{listeners(pid)} {port}")
            if not daemon and srv.p.pid != pid or not wait_for(lambda: read(d.pidfile).strip() == str(pid).encode(), 5):
                raise Violation("the PID file is wrong after SIGHUP", f"{read(d.pidfile)!r} {pid}")
            if stat.S_IMODE(os.stat(d.pidfile).st_mode) != 0o600:
                raise Violation("the PID file's mode is not 0600 after SIGHUP")
            # no connection, no descriptor
            if not wait_for(lambda: fd_kinds(pid) == fresh, 3):
                raise Violation("descriptors were carried over SIGHUP", f"{fd_kinds(pid)} instead of {fresh}")
            for c in [c for c in keep if not isinstance(c, Fifo)]:
                sock = c if isinstance(c, socket.socket) else getattr(getattr(c, "e", c), "sock", None) or getattr(getattr(c, "e", c), "s", None)
                if sock is None:
                    continue
                try:
                    sock.setblocking(False)
                    while sock.recv(65536):
                        pass
                except BlockingIOError:
                    raise Violation("a connection was carried over SIGHUP")
                except OSError:
                    pass
                c.close()
            keep = [c for c in keep if isinstance(c, Fifo)]
            ctx.case(("reload", daemon, i, newport != oport, (oid, okey) != (ident, key)))
            ctx.count("reloads")
        sig = r.choice([signal.SIGTERM, signal.SIGINT])
        os.kill(pid, sig)
        if daemon:
            d.pid = pid
            end(ctx, d, sig)
        else:
            if srv.p.wait(20) != 0 or os.path.exists(d.pidfile):
                raise Violation("a reloaded server did not end with status 0 and the PID file removed", f"{srv.p.returncode} {srv.stderr()[-400:]}")
    finally:
        for c in keep:
            c.shutdown() if isinstance(c, Fifo) else c.close()
        if daemon:
            d.close()
        else:
            d.fifo.shutdown()
            if srv.p.poll() is None:
                srv.p.kill()
                srv.p.wait()


def no_pidfile(ctx):
    """Without a PID file; the start fails in the parent if the socket cannot be had."""
    taken = socket.socket()
    taken.bind(("127.0.0.1", 0))
    taken.listen(1)
    d = ctx.dir("nopid")
    pf = os.path.join(d, "pid")
    x = None
    try:
        x = Daemon(ctx, d=d, pidfile=pf, port=taken.getsockname()[1], wait=False)
        if x.status <= 0 or not x.out.strip():
            raise Violation("a daemon that cannot listen was started", f"{x.status} {x.out!r}")
        if os.path.exists(pf):
            raise Violation("a server that failed to start left its PID file behind")
        ctx.case("port taken")
    finally:
        taken.close()
        if x is not None:
            x.fifo.shutdown()


def chaos(ctx, k):
    """Signals at any moment, also during the start and several at once: the server ends with
    status 0 and without PID file, or goes on."""
    r = random.Random(f"{ctx.seed}/ch{k}")
    d = ctx.dir("chaos")
    pf = os.path.join(d, "pid")
    srv = Server(ctx, dir=d, variant="plain", opts=f"pid_file = {q(pf)}", loglevel=3)
    try:
        if not wait_for(lambda: read(pf).strip() == str(srv.p.pid).encode(), 10):
            raise Violation("the PID file does not hold the server's PID", f"{read(pf)!r} {srv.p.pid}", soft=True)
        for _ in range(r.choice([2, 5, 20, 60])):
            srv.p.send_signal(signal.SIGHUP)
            time.sleep(r.choice([0, 0.0002, 0.001, 0.005, 0.02, 0.1]))
            ctx.count("SIGHUPs")
        if srv.p.poll() is not None:
            raise Violation("SIGHUP ended the server", f"{srv.p.returncode} {srv.stderr()[-400:]}")
        how = r.choice(["at once", "later", "later", "serve"])
        if how != "at once":
            if not wait_for(lambda: srv.p.poll() is not None or listening(srv.port) and read(pf).strip() == str(srv.p.pid).encode(), 20):
                raise Violation("SIGHUP was not acted upon", srv.stderr()[-400:], soft=True)
            if srv.p.poll() is not None:
                raise Violation("SIGHUP ended the server", f"{srv.p.returncode} {srv.stderr()[-400:]}")
            if how == "serve":
                end_ = time.monotonic() + 20
                while True:
                    try:
                        sess(srv.port).quit()
                        break
                    except (Closed, TLSError, OSError) as e:
                        if time.monotonic() > end_ or srv.p.poll() is not None:
                            raise Violation("the server does not serve after SIGHUP", f"{e} {srv.p.returncode} {srv.stderr()[-400:]}")
                        time.sleep(0.02)
        for _ in range(8):
            if srv.p.poll() is None:
                srv.p.send_signal(r.choice([signal.SIGTERM, signal.SIGINT]))
            try:
                srv.p.wait(4)
                break
            except subprocess.TimeoutExpired:
                ctx.count("signals repeated")
        else:
            raise Violation("the server does not end", srv.stderr()[-400:])
        rc = srv.p.returncode
        if rc != 0 or os.path.exists(pf):
            raise Violation("the server did not end with status 0 and the PID file removed", f"{rc} {srv.stderr()[-400:]}")
        ctx.case(("chaos", k))
        ctx.count("orderly ends")
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
        srv.fifo.shutdown()


def stopped(ctx, k):
    """Signals that come together (the server was stopped meanwhile): asked to end, it ends."""
    r = random.Random(f"{ctx.seed}/st{k}")
    d = ctx.dir("stopped")
    pf = os.path.join(d, "pid")
    srv = Server(ctx, dir=d, variant="plain", opts=f"pid_file = {q(pf)}", loglevel=3)
    try:
        if not wait_for(lambda: read(pf).strip() == str(srv.p.pid).encode(), 10):
            raise Violation("the PID file does not hold the server's PID", f"{read(pf)!r} {srv.p.pid}", soft=True)
        sess(srv.port).quit()
        time.sleep(0.05)
        srv.p.send_signal(signal.SIGSTOP)
        wait_for(lambda: stat_of(srv.p.pid)["state"] == "T", 5)
        sigs = [signal.SIGHUP, r.choice([signal.SIGTERM, signal.SIGINT])]
        if k % 2:
            sigs.reverse()
        for s in sigs:
            srv.p.send_signal(s)
        srv.p.send_signal(signal.SIGCONT)
        try:
            rc = srv.p.wait(15)
        except subprocess.TimeoutExpired:
            raise Violation("the server does not end", f"{sigs} at once: {srv.stderr()[-400:]}", soft=True)
        if rc != 0 or os.path.exists(pf):
            raise Violation("the server did not end with status 0 and the PID file removed", f"{sigs} at once: {rc} {srv.stderr()[-400:]}")
        ctx.case(("stopped", k))
        ctx.count("orderly ends")
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
        srv.fifo.shutdown()


def renamed(ctx, k):
    """A reload with another PID file, or none any more, or with a configuration that cannot be used."""
    r = random.Random(f"{ctx.seed}/rn{k}")
    d = ctx.dir("renamed")
    files = [os.path.join(d, f"pid{i}") for i in range(3)]
    left = lambda: [os.path.basename(f) for f in files if os.path.exists(f)]
    if k % 3 == 2:
        x = Daemon(ctx, d=d, pidfile=files[0], conf_pid=True)
        try:
            for i in (1, 2, 0):
                old = x.pid
                x.pidfile = files[i]
                x.write()
                os.kill(old, signal.SIGHUP)
                if not wait_for(lambda: read(files[i]).strip().isdigit() and int(read(files[i])) != old and listening(x.port), 20):
                    raise Violation("the new PID file is not used after SIGHUP", f"{left()} {old}", soft=True)
                x.wait_pid()
                if left() != [os.path.basename(files[i])]:
                    raise Violation("the old PID file is still there after SIGHUP", f"{left()} instead of pid{i}")
                ctx.case(("renamed", "daemon", i))
                ctx.count("reloads with another PID file")
            os.kill(x.pid, signal.SIGTERM)
            end(ctx, x, signal.SIGTERM)
            if left():
                raise Violation("the server did not end with status 0 and the PID file removed", repr(left()))
        finally:
            x.close()
        return
    srv = Server(ctx, dir=d, variant="plain", opts=f"pid_file = {q(files[0])}", loglevel=3)
    try:
        cur = 0
        if not wait_for(lambda: read(files[0]).strip() == str(srv.p.pid).encode(), 10):
            raise Violation("the PID file does not hold the server's PID", f"{left()} {srv.p.pid}", soft=True)
        for i in range(4):
            new = r.choice([n for n in (0, 1, 2, None) if n != cur])
            srv.opts = f"pid_file = {q(files[new])}" if new is not None else ""
            with open(srv.cfile, "w") as f:
                f.write(srv.conf_text())
            c = socket.create_connection(("127.0.0.1", srv.port), 10)
            srv.p.send_signal(signal.SIGHUP)
            c.settimeout(20)
            try:
                while c.recv(1000):
                    pass
            except OSError:
                pass
            c.close()
            if new is not None:
                if not wait_for(lambda: read(files[new]).strip() == str(srv.p.pid).encode() or srv.p.poll() is not None, 20) or srv.p.poll() is not None:
                    raise Violation("the new PID file is not used after SIGHUP", f"{left()} {srv.p.poll()} {srv.stderr()[-300:]}", soft=True)
            wait_for(lambda: srv.p.poll() is not None or listening(srv.port), 20)
            if srv.p.poll() is not None:
                if b"in use" in srv.stderr():
                    raise Inconclusive("port taken")
                raise Violation("the server ended after SIGHUP", f"{srv.p.returncode} {srv.stderr()[-400:]}")
            if left() != ([f"pid{new}"] if new is not None else []):
                raise Violation("the old PID file is still there after SIGHUP", f"{left()} instead of {new}")
            cur = new
            ctx.case(("renamed", "fg", new))
            ctx.count("reloads with another PID file")
        if k % 3 == 1:
            # A configuration that cannot be used ends the server, and nothing is left behind.
            if cur is None:
                srv.opts = ""
            keep = srv.opts
            srv.opts = keep + r.choice(["\nbogus = 1", "\nlog_level = x", "\nmax_queue_size =", "\ntimeout = \"", "\nauthorize {"])
            with open(srv.cfile, "w") as f:
                f.write(srv.conf_text())
            srv.p.send_signal(signal.SIGHUP)
            try:
                rc = srv.p.wait(20)
            except subprocess.TimeoutExpired:
                raise Violation("a server goes on with a broken configuration after SIGHUP", srv.opts, soft=True)
            if rc <= 0 or left():
                raise Violation("a server whose new configuration is broken leaves its PID file behind, or no failure status", f"{rc} {left()}")
            ctx.count("reloads of broken configurations")
        else:
            srv.p.terminate()
            if srv.p.wait(20) != 0 or left():
                raise Violation("the server did not end with status 0 and the PID file removed", f"{srv.p.returncode} {left()}")
        ctx.count("orderly ends")
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
        srv.fifo.shutdown()


def reload_user(ctx, k):
    """A server that has changed its user goes on after SIGHUP like any other."""
    import c20
    r = random.Random(f"{ctx.seed}/ru{k}")
    user = r.choice(list(c20.USERS))
    mode = ["fg", "daemon", "systemd"][k % 3]
    extra = set(r.sample([20, 29, 44, 2001, 2002, 40000], r.choice([0, 1, 3])))
    with c20.Case(ctx, r, user, False, mode, extra) as c:
        if not c.start():
            raise Violation("the server does not start with a user set", f"{user} {mode}: {c.p.returncode} {c.out()[-800:]}")
        pid = c.pid
        for i in range(3):
            if mode == "systemd" and i:
                break
            t = c.mtime()
            s = sess(c.port)
            s.push(b"[1] BEFORE;%d\n" % i)
            os.kill(pid, signal.SIGHUP)
            if mode == "daemon":
                # It detaches once more, under another PID.
                ok = wait_for(lambda: c.read_pid() not in (None, pid) and listening(c.port), 15)
                if ok:
                    pid = c.pid = c.read_pid()
                    DAEMONS.append(pid)
            else:
                ok = wait_for(lambda: not alive(pid) or c.read_pid() == pid and c.mtime() not in (None, t) and listening(c.port), 15)
            s.close()
            if mode == "systemd" and (not ok or not alive(pid)):
                # The socket's number is handed over only with LISTEN_PID and LISTEN_FDS still right.
                ctx.count("inherited sockets not taken over")
                return
            if not alive(pid):
                raise Violation("SIGHUP ended a server that has changed its user", f"{user} {mode} groups {sorted(extra)}: {c.out()[-800:]}")
            if not ok or pid is None:
                raise Violation("the PID file does not hold the server's PID after SIGHUP", f"{user} {mode}: {c.out()[-800:]}", soft=True)
            s = None
            for _ in range(100):
                try:
                    s = sess(c.port)
                    break
                except (Closed, TLSError, OSError):
                    time.sleep(.05)
            if s is None:
                raise Violation("the server does not serve after SIGHUP", f"{user} {mode}: {c.out()[-800:]}", soft=True)
            if s.push(b"[1] AFTER;%d\n" % i) != b"OKAY\r\n" or not wait_for(lambda: b"AFTER;%d" % i in c.fifo.snapshot(), 10):
                raise Violation("the server does not serve after SIGHUP", f"{user} {mode}: {c.out()[-800:]}", soft=True)
            s.quit()
            ctx.case(("reloaded with user", user, mode, i))
            ctx.count("reloads with a user set")
        os.kill(pid, signal.SIGTERM)
        if not wait_for(lambda: not alive(pid), 15) or os.path.exists(c.pidfile) or mode != "daemon" and c.p.wait(5) != 0:
            raise Violation("a reloaded server did not end with status 0 and the PID file removed", f"{c.p.returncode} {c.out()[-400:]}")


def run(ctx):
    adopt()
    build.server("plain")
    jobs = [("no_pidfile", None)]
    jobs += [("start_and_double", k) for k in range(ctx.n(8, 60))]
    jobs += [("stale", k) for k in range(ctx.n(7, 35))]
    jobs += [("race", k) for k in range(ctx.n(4, 60))]
    jobs += [("foreground", k) for k in range(ctx.n(10, 100))]
    jobs += [("reload_", k) for k in range(ctx.n(6, 40))]
    if os.getuid() == 0:
        jobs += [("reload_user", k) for k in range(ctx.n(6, 45))]
    jobs += [("renamed", k) for k in range(ctx.n(6, 30))]
    jobs += [("stopped", k) for k in range(ctx.n(6, 40))]
    jobs += [("chaos", k) for k in range(ctx.n(12, 200))]

    def one(j):
        if ctx.left(60, 900) > 0:
            f = globals()[j[0]]
            return f(ctx) if j[1] is None else f(ctx, j[1])
    one.__name__ = "scenario"
    try:
        ctx.pmap(one, jobs, 8)
    finally:
        for p in DAEMONS:
            try:
                if b"nsca-ng" in read(f"/proc/{p}/cmdline"):
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
