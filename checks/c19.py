"""C19: the log accounts for every submission at its documented level.  Oracle: an audit of the log
(standard error, systemd format, system log) against the recorded sessions: which messages there
have to be, at which level, how often, and that levels nest."""
import random, threading
from collections import Counter
from nlib import *
import c17, cl

TECHNIQUE = "runtime monitoring: offline audit of the complete log against recorded client sessions, at every level and target"
NOTE = ("The same scripted sessions (accepted, refused, malformed, aborted, failing to authenticate, overlong, timing out) run at each log level 0 to 5, set in the "
        "file or with -l, towards standard error, systemd and syslog (recorded by a preloaded stand-in); concurrent clients from different addresses with unique "
        "texts; each message is looked up by its text, level and count, and lower levels are compared with the corresponding part of the highest.")
RULE = ("one case = one submission, request failure or life-cycle event whose log messages were counted and levels compared at one log level and target; distinct = "
        "distinct (event, log level, target, how set); all are non-trivial")
ASSUMPTIONS = ["messages longer than the 768-byte message buffer are cut and marked so", "control characters in a message may be replaced, NUL ends the text"]
LV = {"FATAL": 0, "ERROR": 1, "WARNING": 2, "NOTICE": 3, "INFO": 4, "DEBUG": 5}
PRI = {2: 0, 3: 1, 4: 2, 5: 3, 6: 4, 7: 5}
F_STDERR = re.compile(rb"^(?:lt-)?nsca-ng: \[(\w+)\] (.*)$", re.S)
F_SYSTEMD = re.compile(rb"^<(\d)>(.*)$", re.S)
F_SYSLOG = re.compile(rb"^<(\d+)>\[(\w+)\] (.*)$", re.S)
OWN = re.compile(rb"^(NSCAMON|PRIVSHIM) ")


def parse(data, fmt):
    """-> [(level, text)], lines of another form"""
    out, other = [], []
    for l in data.split(b"\n"):
        if not l or OWN.match(l):
            continue
        m = {"stderr": F_STDERR, "systemd": F_SYSTEMD, "syslog": F_SYSLOG}[fmt].match(l)
        lev = None
        if m and fmt == "stderr":
            lev = LV.get(m[1].decode())
        elif m and fmt == "systemd":
            lev = PRI.get(int(m[1]))
        elif m:
            lev = PRI.get(int(m[1]) & 7)
            if lev != LV.get(m[2].decode()):
                raise Violation("a message has two levels", repr(l))
        if lev is None:
            other.append(l)
        else:
            out.append((lev, m[m.lastindex]))
    return out, other


class Log:
    def __init__(self, ctx, entries, other, level, what):
        self.ctx, self.e, self.other, self.level, self.what = ctx, entries, other, level, what
        for lev, t in entries:
            if lev > level:
                raise Violation("a message above the configured log level", f"{what}: level {lev} {t[:300]!r}")

    def find(self, lev, *parts):
        return [t for l, t in self.e if l == lev and all(p in t for p in parts)]

    def exactly(self, n, lev, *parts, what="", atleast=False):
        """n messages of that level holding all parts, if the level is on."""
        want = n if lev <= self.level else 0
        got = self.find(lev, *parts)
        self.ctx.count("messages looked up")
        if len(got) != want and not (atleast and want and len(got) >= want):
            near = [(l, t) for l, t in self.e if parts and parts[0] in t]
            raise Violation(f"{len(got)} instead of {want} messages at level {lev} for {what}",
                            f"{self.what}, log level {self.level}: looking for {parts!r}; found {got[:4]!r}; similar {near[:6]!r}")

    def none(self, *parts, levels=(0, 1, 2, 3), what=""):
        got = [(l, t) for l, t in self.e if l in levels and all(has(t, p) for p in parts)]
        if got:
            raise Violation(f"a message at level {got[0][0]} for {what}", f"{self.what}: {got[:5]!r}")


def has(t, p):
    """A text, or an address, not just the start of a longer one."""
    return re.search(re.escape(p) + (rb"(?!\d)" if p[-1:].isdigit() else b""), t) is not None


def tok(r):
    return b"T%012x" % r.getrandbits(48)


def clean(text):
    """What a message shows of a text."""
    return text


def dual():
    """Can a server on [::] be reached through IPv4?"""
    global DUAL
    if DUAL is None:
        DUAL = False
        try:
            with socket.socket(socket.AF_INET6) as s:
                s.bind(("::", 0))
                s.listen(1)
                socket.create_connection(("127.0.0.1", s.getsockname()[1]), 5).close()
                DUAL = True
        except OSError:
            pass
    return DUAL


DUAL = None


class Runner:
    """A server with one log level and target, and what it has said in the end."""

    def __init__(self, ctx, level, target, how="file", opts="", auth=None, variant=None, extra_env=None, own=None, fmt=None, daemon_wait=True, six=False):
        self.ctx, self.level, self.target, self.how = ctx, level, target, how
        self.d = ctx.dir("log")
        self.sysl = os.path.join(self.d, "syslog")
        self.pidfile = os.path.join(self.d, "pid")
        env = dict(extra_env or {})
        if target in ("-S", "-s", "daemon"):
            env.update(LD_PRELOAD=build.shim(), NSCA_SYSLOG=self.sysl)
        other = {"file": level, "-l over": (level + 3) % 6, "default": None}[how]
        if how == "default":
            assert level == 3
        args = (["-l", str(level)] if how == "-l over" else [])
        auth = auth or ('authorize "alpha" {\n password = "pwa"\n commands = "OK.*"\n}\nauthorize "beta b" {\n password = "pwb"\n commands = "OK.*"\n hosts = "h.*"\n}\n'
                        'authorize "100%s%n" {\n password = "pwc"\n commands = ".*"\n}\n'
                        'authorize "' + LONG.decode() + '" {\n password = "pwd"\n commands = "OK.*"\n}\n')
        fifo = Fifo(os.path.join(self.d, "cmd"))
        self.fifo = fifo
        conf = (f"command_file = {q(fifo.path)}\ntemp_directory = {q(self.d)}\npid_file = {q(self.pidfile)}\n"
                + (f"log_level = {other}\n" if other is not None else "") + opts + "\n" + auth)
        self.err = os.path.join(self.d, "stderr")
        c = os.path.join(self.d, "c.cfg")
        with open(c, "w", encoding="latin-1") as f:
            f.write(conf)
        e = {k: v for k, v in os.environ.items() if not k.startswith(("NSCAMON", "LISTEN", "NOTIFY", "WATCHDOG"))}
        e.update(env)
        self.inherit = None
        self.p = None
        for _ in range(5):
            self.port = free_port()
            argv = [build.server("plain"), "-c", c, *args]
            pre = None
            if target == "systemd":
                s = self.inherit = socket.socket()
                s.bind(("127.0.0.1", 0))
                s.listen(50)
                self.port = s.getsockname()[1]
                e["LISTEN_FDS"] = "1"
                argv = ["sh", "-c", 'LISTEN_PID=$$ exec "$@"', "sh", *argv]

                def pre():
                    os.dup2(s.fileno(), 3)
                    os.set_inheritable(3, True)
            else:
                # The address of an IPv4 client of the other kind of socket is ::ffff:127...
                host = "[::]" if six and dual() else "127.0.0.1"
                ctx.count("servers on IPv6 sockets", host == "[::]")
                argv += ["-b", f"{host}:{self.port}"] if own is None else own
                if target != "daemon":
                    argv += ["-F"] + ([target] if target.startswith("-") else [])
            with open(self.err, "wb") as ef:
                self.p = ctx.spawn(argv, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, cwd=self.d, preexec_fn=pre, close_fds=target != "systemd")
            if target == "daemon":
                self.p.wait(30)
            ok = wait_for(lambda: (self.p.poll() not in (None, 0)) or c17.read(self.pidfile).strip().isdigit() and listening(self.port), 20)
            if self.p.poll() not in (None, 0) and b"in use" in c17.read(self.err):
                continue
            break
        if own is None:
            if not ok or self.p.poll() not in (None, 0):
                raise Violation("the server does not start", f"{target} {level} {how}: {c17.read(self.err)[-800:]!r}", soft=True)
            self.pid = int(c17.read(self.pidfile))
            if target == "daemon":
                c17.DAEMONS.append(self.pid)

    def finish(self, sig=signal.SIGTERM):
        if self.pid and c17.alive(self.pid):
            os.kill(self.pid, sig)
            if not wait_for(lambda: not c17.alive(self.pid), 20):
                raise Violation("the server does not end", soft=True)
        return self.logs()

    def logs(self):
        """-> [Log]: one per place the messages go to"""
        err, syl = c17.read(self.err), c17.read(self.sysl)
        out = []
        what = f"target {self.target}, level set by {self.how}"
        if self.target in ("stderr", "-S"):
            e, o = parse(err, "stderr")
            out.append(Log(self.ctx, e, o, self.level, what + " (standard error)"))
        if self.target == "systemd":
            e, o = parse(err, "systemd")
            out.append(Log(self.ctx, e, o, self.level, what + " (systemd)"))
        if self.target in ("-S", "-s", "daemon"):
            e, o = parse(syl, "syslog")
            out.append(Log(self.ctx, e, o, self.level, what + " (syslog)"))
        if self.target in ("-s", "daemon"):
            # Start-up problems may go to standard error as well; what follows must not.
            if b"T0" in err or b"Queuing" in err or b"Exiting" in err:
                raise Violation("messages meant for syslog go to standard error", err[-400:])
        if self.target in ("stderr", "systemd") and syl:
            raise Violation("messages go to syslog unasked", syl[:300])
        return out

    def close(self):
        try:
            if self.pid and c17.alive(self.pid):
                os.kill(self.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.fifo.shutdown()
        if self.inherit:
            self.inherit.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


LONG = b"long-" + b"name" * 28 + b"-end"
KEYS = {b"alpha": b"pwa", b"beta b": b"pwb", b"100%s%n": b"pwc", LONG: b"pwd"}


def dial(port, ident, key=None, src="127.0.0.1", version=None, timeout=20):
    s = socket.socket()
    s.settimeout(timeout)
    s.bind((src, 0))
    s.connect(("127.0.0.1", port))
    ep = tlspsk.Endpoint(s, "client", ident, KEYS[ident] if key is None else key, version=version)
    ep.handshake(timeout)
    return Sess(ep, timeout)


def over(x):
    """Leave properly and wait for the server's end."""
    r, rest = None, None
    r = x.cmd(b"QUIT")
    try:
        x.e.shutdown()
        x.e.read_to_end(5)
    except (Closed, TLSError, TimeoutError):
        pass
    x.close()
    return r


TEXTS = ["plain", "percent", "latin", "utf8", "tab", "ctrl", "semicolon", "long", "longer", "quote", "space", "brackets", "cr", "just"]


def text(r, kind, t):
    return {"plain": b"v", "percent": b"100%s %n %m %d%%%", "latin": b"\xe4\xff\xa0", "utf8": "\u20ac\u00fc".encode(), "tab": b"a\tb", "ctrl": b"\x01\x1b[31m\x7f",
            "semicolon": b"h;s;0;x|a=1", "long": b"l" * 400, "longer": b"m" * r.choice([620, 700, 767, 768, 769, 3000, 60000]), "quote": b"'\"`\\", "space": b"  a  b  ",
            "brackets": b"[1] <2> {3}", "cr": b"x\ry", "just": b""}[kind]


def shown(full):
    """The part of a text a message has to show."""
    return full[:600]


def script(ctx, port, r, idle_timeout):
    """Sessions with all kinds of outcomes.  -> list of (kind, expectations)"""
    exp = []
    src = r.choice(["127.0.0.1", "127.0.0.2", "127.1.2.3"])
    for ident in r.sample(list(KEYS), 3):
        if ident == b"100%s%n":
            n_ok = 2
        x = dial(port, ident, src=src)
        sid = b"S%d" % r.randrange(10**9)
        x.moin(sid)
        peer = src.encode()
        for kind in r.sample(TEXTS, 6):
            t = tok(r)
            c = b"[%d] OK;%s;%s" % (r.choice([1, 1500000000]), t, text(r, kind, t))
            a = x.push(c + b"\n")
            if a != b"OKAY\r\n":
                raise Inconclusive(f"not accepted: {c!r} {a!r}")
            exp.append(("accepted", ident, peer, sid, t, c))
        for kind in r.sample(["unauthorised", "no stamp", "two lines", "no newline", "nul"], 4):
            t = tok(r)
            c = {"unauthorised": b"[1] NO;%s\n" % t, "no stamp": b"OK;%s\n" % t, "two lines": b"[1] OK;%s\n[1] OK;x\n" % t, "no newline": b"[1] OK;%s" % t,
                 "nul": b"[1] OK;%s\0x\n" % t}[kind]
            if ident == b"100%s%n" and kind == "unauthorised":
                continue
            a = x.push(c)
            if not a.startswith(b"FAIL"):
                raise Inconclusive(f"not refused: {c!r} {a!r}")
            exp.append(("refused " + kind, ident, peer, sid, t, c))
        for req in r.sample([b"PUSH", b"PUSH %s", b"PUSH 1 %s", b"HELLO %s", b"PUSH -1", b"", b"PUSH 99999999", b"%%s%%n %s"], 4):
            t = tok(r)
            req = req % t if b"%s" in req else req
            a = x.cmd(req)
            if not a.startswith(b"FAIL"):
                raise Inconclusive(f"not refused: {req!r} {a!r}")
            exp.append(("malformed", ident, peer, sid, req, None))
        x.cmd(b"NOOP")
        exp.append(("noop", ident, peer, sid, b"NOOP", None))
        over(x)
        exp.append(("quit", ident, peer, sid, b"QUIT", None))
    # before the greeting
    x = dial(port, b"alpha")
    for req in (b"MOIN", b"MOIN x", b"MOIN 0 abc", b"NOOP", b"PUSH 3", b"HUH", b"MOIN 1"):
        a = x.cmd(req)
        if not a.startswith(b"FAIL"):
            raise Inconclusive(f"not refused: {req!r} {a!r}")
        exp.append(("malformed early", b"alpha", b"127.0.0.1", b"", req, None))
    x.cmd(b"PING 1")
    x.close()
    return exp


def judge(ctx, log, exp):
    L = log.level
    per = Counter()
    for kind, ident, peer, sid, t, c in exp:
        if kind == "accepted":
            log.exactly(1, 3, t, what="an accepted command")
            m = log.find(3, t)
            if m:
                m = m[0]
                want = c.replace(b"\n", b" ")
                if ident not in m or peer not in m:
                    raise Violation("the message of an accepted command does not name the client", f"{log.what}: {m[:300]!r}, should have {ident!r} and {peer!r}")
                cut = c.split(b"\0")[0]
                k = m.find(c[:4 + len(t)])
                at = m.find(cut[:cut.index(t) + len(t)])
                shown_ = m[at:]
                if at < 0 or not (soft_eq(shown_, cut) or len(m) > 700 and soft_prefix(shown_, cut)):
                    raise Violation("the message of an accepted command does not hold its text", f"{log.what}: {m[:900]!r}, should have {cut[:900]!r}")
            log.none(t, levels=(0, 1, 2), what="an accepted command")
            if L >= 4:
                log.exactly(1, 4, t, what="a message received")
        elif kind.startswith("refused"):
            if kind != "refused nul" or True:
                got = [m for l, m in log.e if l == 2 and t in m]
                if L >= 2 and len(got) != 1:
                    raise Violation(f"{len(got)} instead of 1 warnings with the text of a refused command", f"{log.what} level {L}: {kind} {c!r}: {got!r}")
                if L >= 2 and (ident not in got[0] or peer not in got[0]):
                    raise Violation("the message of a refused command does not name the client", f"{log.what}: {got[0][:300]!r}")
            log.none(t, levels=(0, 1, 3), what="a refused command")
            if L >= 4:
                log.exactly(1, 4, t, what="a message received")
        elif kind.startswith("malformed"):
            per[(ident, peer, sid, kind)] += 1
        ctx.case((kind, L, log.what))
    # One warning per malformed request, naming the client.
    for (ident, peer, sid, kind), n in per.items():
        refused = sum(1 for e in exp if e[0].startswith("refused") and e[3] == sid and e[1] == ident)
        if L >= 2:
            texts = [e[4] for e in exp if e[0].startswith("refused") and e[3] == sid and e[1] == ident]
            got = [m for l, m in log.e if l == 2 and ident in m and peer in m and (sid in m if sid else b"ID:" not in m) and not any(x in m for x in texts)]
            own = [m for m in got if not re.search(rb"TLS|[Ss]ocket|timed out|too long\)", m)]
            if len(own) != n:
                raise Violation(f"{len(own)} warnings for {n} malformed requests", f"{log.what} level {L}: {own!r}; requests {[e[4] for e in exp if e[3] == sid and e[0] == kind]!r}")
    if L >= 4:
        # Every message sent or received, once.
        for sid in {e[3] for e in exp if e[3]}:
            reqs = [e for e in exp if e[3] == sid]
            cs = [m for l, m in log.e if l == 4 and sid in m and b" C: " in m]
            ss = [m for l, m in log.e if l == 4 and sid in m and b" S: " in m]
            acc = sum(1 for e in reqs if e[0] == "accepted")
            ref = sum(1 for e in reqs if e[0].startswith("refused"))
            want_c = 1 + 2 * (acc + ref) + sum(1 for e in reqs if e[0] in ("malformed", "noop", "quit"))
            if len(cs) != want_c or len(ss) != want_c:
                raise Violation("the log at level 4 does not hold each message sent or received once", f"{log.what}: {len(cs)} received instead of {want_c}, "
                                f"{len(ss)} sent instead of {want_c}: {cs[:3]!r} {ss[:3]!r}")
            ctx.count("protocol messages counted", len(cs) + len(ss))


def soft_eq(a, b):
    return len(a) == len(b) and soft_prefix(a, b)


def soft_prefix(a, b):
    """a shows b, perhaps cut short and marked so, control characters replaced."""
    if len(a) > len(b):
        return False
    if len(a) < len(b):
        if not a.endswith(b"[...]") and not a.endswith(b"..."):
            return False
        a = re.sub(rb" ?\[?\.\.\.\]?$", b"", a)
    return all(x == y or y < 32 or y == 127 for x, y in zip(a, b))


def life(log, ctx, starts=1, ends=1, ups=0):
    log.exactly(starts, 3, b"starting up", what="the start")
    log.exactly(ends, 3, b"Exiting", what="the end")
    ctx.case(("life", log.level, log.what))


TARGETS = ["stderr", "systemd", "-S", "-s", "daemon"]


def audit(ctx, k):
    r = random.Random(f"{ctx.seed}/au{k}")
    level = k % 6
    target = TARGETS[(k // 6 + k) % 5]
    how = ["file", "-l over"][(k // 3) % 2] if level != 3 or k % 4 else "default"
    with Runner(ctx, level, target, how, opts="max_command_size = 100000", six=k % 3 == 1) as s:
        exp = script(ctx, s.port, r, None)
        if not wait_for(lambda: s.fifo.snapshot().count(b"\n") >= 1, 5):
            ctx.count("slow pipe")
        for log in s.finish():
            judge(ctx, log, exp)
            life(log, ctx)
            if log.level >= 3:
                log.exactly(1, 3, b"SIGTERM", what="a signal")
            ctx.count("log messages read", len(log.e))
            ctx.count("submissions audited", len(exp))


NORM = [(re.compile(rb"0x[0-9a-f]+"), b"PTR"), (re.compile(rb"\b\d+\.\d\d seconds"), b"N seconds"), (re.compile(rb"/[^ ]*nsca-C19-[^ ]*"), b"PATH"),
        (re.compile(rb"127\.0\.0\.1:\d+"), b"ADDR"), (re.compile(rb"descriptor \d+"), b"FD")]


def norm(t):
    for p, x in NORM:
        t = p.sub(x, t)
    return t


def nest(ctx, k):
    """The same sessions at all levels: a lower level has exactly the corresponding part."""
    got = {}
    for level in (5, 0, 1, 2, 3, 4):
        r = random.Random(f"{ctx.seed}/ne{k}")
        with Runner(ctx, level, ["stderr", "systemd", "-s", "-S"][k % 4], ["file", "-l over"][k % 2], opts="max_command_size = 100000") as s:
            script(ctx, s.port, r, None)
            log = s.finish()[-1]
        got[level] = log.e
    for level in range(5):
        # What depends on timing (TLS shutdown, pipe) is judged elsewhere.
        def part(e):
            return Counter((l, norm(t)) for l, t in e if l <= level and not re.search(rb"TLS|Socket|command file", t))
        a, b = part(got[level]), part(got[5])
        if a != b:
            raise Violation("a log level is not the corresponding part of a higher one", f"level {level}: only there {list((a - b).items())[:5]!r}; "
                            f"only at level 5 {list((b - a).items())[:5]!r}")
        ctx.case(("nest", k, level))
        ctx.count("levels compared")
    n = [len(got[i]) for i in range(6)]
    ctx.count("log messages read", sum(n))
    if not (n[2] < n[3] < n[4] < n[5]):
        raise Violation("higher log levels add nothing", f"{n}")


def failures(ctx, k):
    """Request failures below the protocol: each is told at warning level, with the address or identity."""
    r = random.Random(f"{ctx.seed}/fa{k}")
    level = [2, 3, 5, 1, 0, 4][k % 6]
    with Runner(ctx, level, TARGETS[k % 5], ["file", "-l over"][k % 2], opts="timeout = 1\nmax_command_size = 1000", six=k % 3 == 2) as s:
        exp = []
        addr = iter([f"127.0.3.{i}" for i in range(1, 200)])
        kinds = ["wrong key", "unknown", "junk", "plain", "timeout", "timeout early", "timeout payload", "toolong", "drop", "reset", "oversized", "bail", "toolong moin",
                 "drop payload", "drop early", "wrong12"]
        for kind in kinds:
            a = next(addr)
            t = tok(r)
            try:
                if kind in ("junk", "plain", "timeout early", "drop early"):
                    c = socket.socket()
                    c.settimeout(10)
                    c.bind((a, 0))
                    c.connect(("127.0.0.1", s.port))
                    if kind == "junk":
                        c.sendall(b"\x80" + r.randbytes(200))
                    elif kind == "plain":
                        c.sendall(b"MOIN 1 abcd\r\n")
                    elif kind == "drop early":
                        c.sendall(b"\x16\x03")
                        time.sleep(.05)
                        c.shutdown(socket.SHUT_WR)
                    try:
                        while c.recv(4096):
                            pass
                    except OSError:
                        pass
                    c.close()
                    exp.append((kind, 2, [a.encode()]))
                    continue
                if kind in ("wrong key", "unknown", "wrong12"):
                    i = b"alpha" if kind != "unknown" else b"who-" + t
                    try:
                        x = dial(s.port, i, b"not the key", src=a, version="1.2" if kind == "wrong12" else None)
                        x.moin()
                        raise Violation("let in with a wrong key")
                    except (Closed, TLSError, ConnectionError):
                        pass
                    exp.append((kind, 2, [i if kind == "unknown" else a.encode()]))
                    continue
                x = dial(s.port, b"alpha", src=a)
                if kind != "toolong moin":
                    x.moin(t)
                if kind == "timeout":
                    x.e.read_to_end(10)
                elif kind == "timeout payload":
                    x.cmd(b"PUSH 500")
                    x.e.send(b"[1] OK;")
                    x.e.read_to_end(10)
                elif kind in ("toolong", "toolong moin"):
                    x.e.send(b"MOIN " + b"z" * 6000)
                    x.e.read_to_end(10)
                elif kind == "drop":
                    pass
                elif kind == "drop payload":
                    x.cmd(b"PUSH 500")
                    x.e.send(b"[1] OK;")
                elif kind == "reset":
                    x.cmd(b"PUSH 500")
                    x.e.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                elif kind == "oversized":
                    x.cmd(b"PUSH 1001")
                    x.cmd(b"NOOP")
                    over(x)
                elif kind == "bail":
                    x.e.send(b"BAIL sorry " + t + b"\r\n")
                    try:
                        x.e.shutdown()
                        x.e.read_to_end(5)
                    except (Closed, TLSError):
                        pass
                x.close()
                exp.append((kind, 1 if kind == "bail" else 2, [a.encode()]))
            except (Closed, ConnectionError):
                exp.append((kind, 1 if kind == "bail" else 2, [a.encode()]))
        # Sessions that do nothing wrong.
        quiet = []
        for _ in range(2):
            a = next(addr)
            x = dial(s.port, b"alpha", src=a)
            x.moin()
            t = tok(r)
            x.push(b"[1] OK;" + t + b"\n")
            over(x)
            quiet.append((a.encode(), t))
        time.sleep(0.1)
        for log in s.finish():
            for kind, lev, parts in exp:
                if lev <= level:
                    got = [m for l, m in log.e if l in ((2, 1) if lev == 2 else (1,)) and all(has(m, p) for p in parts)]
                    # a reset or close may be seen while shutting down, too
                    if not got:
                        raise Violation(f"no message at warning level for a request failure ({kind})", f"{log.what} level {level}: {parts!r}")
                    if kind in ("oversized", "bail", "unknown", "timeout", "timeout early", "timeout payload", "toolong", "toolong moin", "junk", "plain", "wrong12") and len(
                            [m for m in got if not re.search(rb"aborted|[Ss]ocket error|eof|closed the TLS|close notify|TLS error", m)]) > 1:
                        raise Violation(f"more than one message for one request failure ({kind})", f"{log.what} level {level}: {got!r}")
                    log.none(*parts, levels=(0, 3), what=f"a request failure ({kind})")
                ctx.case(("failure", kind, level, log.what))
                ctx.count("failures audited")
            for a, t in quiet:
                bad = [m for l, m in log.e if l <= 2 and a + b" " in m + b" " and not re.search(rb"TLS|[Ss]ocket", m)]
                if bad:
                    raise Violation("a warning for a session in which nothing failed", f"{bad!r}")
                log.exactly(1, 3, t, what="an accepted command")


def forged(ctx, k):
    """Nothing a client sends makes an entry of its own."""
    r = random.Random(f"{ctx.seed}/fo{k}")
    target = TARGETS[k % 5]
    level = [5, 3][k % 2]
    with Runner(ctx, level, target) as s:
        t = [tok(r) for _ in range(6)]

        def entry(x):
            return [b"nsca-ng: [NOTICE] Queuing data from alpha@10.9.8.7 (ID: x): [1] " + x, b"<5>Queuing data from alpha@10.9.8.7 (ID: x): [1] " + x,
                    b"<29>[NOTICE] Queuing data from alpha@10.9.8.7 (ID: x): [1] " + x][r.randrange(3) if target == "x" else {"stderr": 0, "-S": 0, "systemd": 1}.get(target, 2)]
        x = dial(s.port, b"alpha")
        x.moin()
        for p in (b"[1] NO\n" + entry(t[0]) + b"\n", b"[1] NO\r\n" + entry(t[1]), b"[1] NO;\n" * 3 + entry(t[2]) + b"\n"):
            if not x.push(p).startswith(b"FAIL"):
                raise Inconclusive("accepted")
        try:
            x.cmd(b"HUH \r" + entry(t[3]))
        except Closed:
            pass
        x.close()
        for i, key in ((b"who\n" + entry(t[4])[:110], b"x"), (b"who\r\n" + entry(t[5])[:110], b"x")):
            try:
                dial(s.port, i, key, version=r.choice(["1.2", "1.3"])).moin()
            except (Closed, TLSError, ConnectionError):
                pass
        for log in s.finish():
            for x in t:
                for l, m in log.e:
                    if l == 3 and m.startswith(b"Queuing") and (x in m or b"10.9.8.7" in m):
                        raise Violation("a client can make up log entries", f"{log.what}: {m!r}", key="forged")
            if log.other and any(b"10.9.8.7" in o for o in log.other):
                raise Violation("a client can make up lines of the log", f"{log.what}: {log.other[:3]!r}", key="forged")
            ctx.case(("forged", log.what, level))
            ctx.count("forgeries tried", len(t))


def crowd(ctx, k):
    """Many clients at once: every command once, under the right name and address."""
    r = random.Random(f"{ctx.seed}/cr{k}")
    level = [3, 5, 3, 4][k % 4]
    n, m = ctx.n(24, 60), ctx.n(8, 20)
    done, lock, errs = [], threading.Lock(), []
    with Runner(ctx, level, TARGETS[k % 5], opts="max_queue_size = 0", six=k % 2) as s:
        def go(i):
            rr = random.Random(f"{ctx.seed}/{k}/{i}")
            ident = rr.choice(list(KEYS))
            a = f"127.0.{i % 250}.{1 + k % 200}"
            try:
                x = dial(s.port, ident, src=a, timeout=40)
                sid = b"S" + tok(rr)
                x.moin(sid)
                for j in range(m):
                    t = tok(rr)
                    good = rr.random() < .7
                    c = b"[1] %s;%s;%s\n" % (b"OK" if good or ident == b"100%s%n" else b"NO", t, b"x" * rr.choice([1, 10, 300, 3000]))
                    ans = x.push(c)
                    with lock:
                        done.append((ident, a.encode(), sid, t, ans == b"OKAY\r\n", c[:-1]))
                over(x)
            except Exception as e:
                errs.append(repr(e))
        ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(90)
        if errs and len(done) < n * m // 2:
            raise Inconclusive(f"clients failed: {errs[:3]}")
        for log in s.finish():
            idx = {}
            for l, t in log.e:
                for x in re.findall(rb"T[0-9a-f]{12}", t):
                    if not t[t.find(x) - 1:t.find(x)] == b"S":
                        idx.setdefault(x, []).append((l, t))
            for ident, a, sid, t, ok, c in done:
                e = [x for x in idx.get(t, []) if x[0] <= 3]
                want = 3 if ok else 2
                if len(e) != 1 or e[0][0] != want:
                    raise Violation("a submission is not logged exactly once at its level", f"{log.what} level {level}: {'accepted' if ok else 'refused'} {t!r}: {e!r}")
                if ident not in e[0][1] or a not in e[0][1] or sid not in e[0][1]:
                    raise Violation("a submission is logged under another name, address or session", f"{log.what}: {e[0][1][:300]!r}, should have {ident!r} {a!r} {sid!r}")
                if level >= 4 and len(idx[t]) != 2:
                    raise Violation("a message received is not logged exactly once", f"{log.what}: {idx[t]!r}")
            ctx.case(("crowd", log.what, level, k))
            ctx.count("submissions audited", len(done))


def edge(ctx, k):
    """Messages of all lengths around the size of the buffer: whole, or marked as cut."""
    r = random.Random(f"{ctx.seed}/ed{k}")
    target = TARGETS[k % 5]
    ident = list(KEYS)[k % 3]
    with Runner(ctx, 3, target, opts="max_command_size = 100000") as s:
        x = dial(s.port, ident)
        sid = b"S" * r.randrange(1, 40)
        x.moin(sid)
        sent = []
        for n in range(590, 790):
            good = n % 2 or ident == b"100%s%n"
            t = tok(r)
            c = b"[1] %s;%s;" % (b"OK" if good else b"NO", t)
            c += b"x" * (n - len(c))
            a = x.push(c + b"\n")
            if a[:4] != (b"OKAY" if good else b"FAIL"):
                raise Inconclusive(f"{a!r}")
            sent.append((t, c, good))
        over(x)
        for log in s.finish():
            whole = 0
            for t, c, good in sent:
                lev = 3 if good else 2
                log.exactly(1, lev, t, what="a command of %d bytes" % len(c))
                m = log.find(lev, t)[0]
                part = m[m.index(b"[1] "):]
                if not (part.startswith(c) or re.search(rb"\[?\.\.\.\]?$", part) and soft_prefix(part, c + b"y" * 9)):
                    raise Violation("a message is cut without saying so", f"{log.what}: command of {len(c)} bytes, message of {len(m)} bytes ends in {m[-30:]!r}")
                whole += part.startswith(c)
            ctx.count("messages around the buffer size, whole", whole)
            ctx.count("messages around the buffer size, cut", len(sent) - whole)
            ctx.case(("edge", log.what, ident))


def startup(ctx, k):
    """Fatal errors are told at every level; a default is used without any."""
    r = random.Random(f"{ctx.seed}/st{k}")
    level = k % 6
    target = ["stderr", "daemon", "-S", "-s"][k % 4]
    d = ctx.dir("st")
    sysl = os.path.join(d, "syslog")
    kind = ["port", "temp", "auth", "pid", "cipher", "option"][(k // 6 + k) % 6]
    taken = socket.socket()
    taken.bind(("127.0.0.1", 0))
    taken.listen(1)
    port = taken.getsockname()[1] if kind == "port" else free_port()
    with open(os.path.join(d, "c.cfg"), "w") as f:
        f.write(f"command_file = {q(os.path.join(d, 'cmd'))}\ntemp_directory = {q(d if kind != 'temp' else '/nonexistent/t')}\n"
                + ("pid_file = \"/nonexistent/p\"\n" if kind == "pid" else "") + ('tls_ciphers = "BOGUS"\n' if kind == "cipher" else "")
                + (f"log_level = {level}\n" if k % 2 else "")
                + ('authorize "a" {\n password = "x"\n}\n' if kind != "auth" else ""))
    argv = [build.server("plain"), "-c", os.path.join(d, "c.cfg"), "-b", f"127.0.0.1:{port}", *([] if k % 2 else ["-l", str(level)])]
    if target != "daemon":
        argv += ["-F"] + ([target] if target != "stderr" else [])
    if kind == "option":
        argv.append("surplus")
    e = {k_: v for k_, v in os.environ.items() if not k_.startswith(("NSCAMON", "LISTEN", "NOTIFY", "WATCHDOG"))}
    e.update(LD_PRELOAD=build.shim(), NSCA_SYSLOG=sysl)
    p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=30)
    taken.close()
    ent, other = parse(p.stdout, "stderr")
    ent2, _ = parse(c17.read(sysl), "syslog")
    if p.returncode in (0, None) or p.returncode < 0:
        raise Inconclusive(f"it started: {kind}")
    f = [t for l, t in ent + ent2 if l == 0]
    if not f:
        raise Violation("a fatal error is not told", f"{kind}, level {level}, {target}: {p.stdout!r} {ent2!r}")
    if len([t for l, t in ent if l == 0]) > 1 or len([t for l, t in ent2 if l == 0]) > 1:
        raise Violation("a fatal error is told more than once", f"{kind}: {ent!r} {ent2!r}")
    if level < 3 and any(l > max(level, 0) and l > 4 for l, t in ent + ent2):
        raise Violation("a message above the configured log level", f"{kind} {level}: {ent!r} {ent2!r}")
    ctx.case(("fatal", kind, level, target))
    ctx.count("fatal errors")


def mtime(p):
    try:
        return os.stat(p).st_mtime_ns
    except OSError:
        return None


def reload_(ctx, k):
    """Start and stop are told once each, also after a change of the level."""
    r = random.Random(f"{ctx.seed}/re{k}")
    level = [3, 5, 2][k % 3]
    with Runner(ctx, level, ["stderr", "-s", "systemd"][k % 3]) as s:
        old = os.stat(s.pidfile).st_mtime_ns
        x = dial(s.port, b"alpha")
        x.moin()
        t1, t2 = tok(r), tok(r)
        x.push(b"[1] OK;" + t1 + b"\n")
        over(x)
        os.kill(s.pid, signal.SIGHUP)
        wait_for(lambda: mtime(s.pidfile) not in (None, old) and c17.read(s.pidfile).strip(), 15)
        for _ in range(100):
            try:
                x = dial(s.port, b"alpha")
                x.moin()
                break
            except (OSError, Closed, TLSError):
                time.sleep(.05)
        x.push(b"[1] OK;" + t2 + b"\n")
        over(x)
        for log in s.finish():
            life(log, ctx, 2, 1)
            for t in (t1, t2):
                log.exactly(1, 3, t, what="an accepted command")
            log.exactly(1, 3, b"Restarting", what="a reload")
            ctx.case(("reload", level, log.what))


def sender(ctx, k):
    """send_nsca's levels nest, too."""
    r = random.Random(f"{ctx.seed}/se{k}")
    t = [tok(r) for _ in range(3)]
    inp = b"\x17".join(b"h\ts\t0\t" + x for x in t) + b"\n"
    got = {}
    resp = [None, lambda kind, a: b"FAIL no\r\n" if kind == "DATA" else None][k % 2]
    hub = cl.Hub(ctx)
    try:
        for v in range(5):
            syl = k // 2 % 2
            sysl = os.path.join(ctx.tmp, f"sn{k}{v}")
            res = cl.run(ctx, hub, inp, ["-v"] * v + (["-s"] if syl else []), script=resp, variant="plain", env={"LD_PRELOAD": build.shim(), "NSCA_SYSLOG": sysl})
            if syl:
                e, o = parse(c17.read(sysl), "syslog")
            else:
                e, o = parse(res.err.replace(b"send_nsca: [", b"nsca-ng: ["), "stderr")
            level = 2 if v == 0 else min(2 + v, 5)
            for l, m in e:
                if l > level:
                    raise Violation("send_nsca: a message above the log level", f"-v x {v}: {l} {m!r}")
            if resp is None:
                for x in t:
                    n = [m for l, m in e if l == 3 and x in m]
                    if len(n) != (1 if level >= 3 else 0):
                        raise Violation("send_nsca: a transmitted command is not logged exactly once", f"-v x {v}: {n!r}")
            elif not [1 for l, m in e if l <= 2] and not syl:
                raise Violation("send_nsca: a refusal is not told", f"{res.err!r}")
            got[v] = Counter((l, re.sub(rb"c\d+|\[\d+\]|\d+", b"N", norm(m))) for l, m in e if not re.search(rb"TLS|standard input|bytes|IDs?:? ", m))
            ctx.case(("send_nsca", v, k))
        for v in range(4):
            lim = 2 if v == 0 else 2 + v
            hi = Counter({x: n for x, n in got[4].items() if x[0] <= lim})
            if got[v] != hi:
                raise Violation("send_nsca: a log level is not the corresponding part of a higher one", f"-v x {v}: {list((got[v] - hi).items())[:4]!r} {list((hi - got[v]).items())[:4]!r}")
            ctx.count("levels compared")
    finally:
        hub.close()


def run(ctx):
    c17.adopt()
    build.server("plain"), build.client("plain"), build.shim()
    jobs = [("failures", k) for k in range(ctx.n(6, 36))]
    jobs += [("nest", k) for k in range(ctx.n(4, 20))]
    jobs += [("audit", k) for k in range(ctx.n(30, 240))]
    jobs += [("crowd", k) for k in range(ctx.n(5, 30))]
    jobs += [("forged", k) for k in range(ctx.n(5, 10))]
    jobs += [("startup", k) for k in range(ctx.n(24, 72))]
    jobs += [("edge", k) for k in range(ctx.n(5, 15))]
    jobs += [("reload_", k) for k in range(ctx.n(3, 12))]
    jobs += [("sender", k) for k in range(ctx.n(4, 12))]

    def one(j):
        if ctx.left(60, 900) > 0:
            return globals()[j[0]](ctx, j[1])
    one.__name__ = "scenario"
    try:
        ctx.pmap(one, jobs, 8)
    finally:
        for p in c17.DAEMONS:
            try:
                if p and b"nsca-ng" in c17.read(f"/proc/{p}/cmdline"):
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
