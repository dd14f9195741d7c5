"""C36: the clients speak the documented protocol.  Oracle: an automaton of the PROTOCOL document over
everything each client sends on each connection, up to the TLS close notification."""
import random, threading
import bind, cl
from bind import B, U, Driver
from nlib import *

TECHNIQUE = "runtime monitoring: online automaton of the protocol specification over the bytes every client sends, with a scripted server that deviates at each step"
NOTE = ("send_nsca and the Perl and Python modules submit results and commands of all sizes to a server that answers as specified, or refuses, bails out, proposes another "
        "version or answers something unknown at any step, at once, late or in pieces, with TLS 1.2 and 1.3.  Every request line, payload, pause and close notification of "
        "every connection is judged, and so are the cipher suites that the first message offers.")
RULE = ("one case = one connection of a client; distinct = distinct (client, TLS version, step, deviation, number of commands, timing); "
        "non-trivial = the client got as far as its first request")
ASSUMPTIONS = ["a client that has to abort (a broken connection, no answer in time, malformed input) need not take its leave",
               "results are free of newlines: what the modules do with those is C26's and C27's matter"]

ODD = [b"OK\r\n", b"NOPE\r\n", b"\r\n", b"404 Not Found\r\n", b"PONG 1\r\n", b"YOKAY\r\n", b"x" * 500 + b"\r\n", b"FAI\r\n", b"okra\r\n", b"%s%n\r\n"]
FAIL = [b"FAIL no\r\n", b"FAIL You're not authorized\r\n", b"FAIL " + b"x" * 700 + b"\r\n", b"FAIL no\n"]
BAIL = [b"BAIL out\r\n", b"BAIL Connection timed out\r\n", b"BAIL " + b"y" * 700 + b"\r\n"]
VERSION = [b"MOIN 2\r\n", b"MOIN 3\r\n", b"MOIN 10\r\n", b"MOIN 99\r\n", b"MOIN 257\r\n", b"MOIN 65537\r\n"]


class Script:
    """Deviates once: at the n-th answer to a request of that kind."""

    def __init__(self, point=None, kind=None, text=None, think=.02, pieces=False, after=False):
        self.point, self.kind, self.text, self.think, self.pieces = point, kind, text, think, pieces
        self.after = after             # the server takes its leave after its BAIL
        self.left = point[1] if point else 0
        self.done = False
        self.lock = threading.Lock()
        self.conns = []

    def take(self, what):
        with self.lock:
            if self.point is None or self.done or what != self.point[0]:
                return False
            if self.left:
                self.left -= 1
                return False
            self.done = True
            return True


class Conn:
    """One connection, observed."""

    def __init__(self, script):
        self.script, self.log, self.wrong = script, [], []
        self.hello, self.cn, self.over, self.version = b"", False, False, None
        self.state, self.said, self.bailed = "TLS", None, False
        self.cmds, self.id = [], None

    def bad(self, what, detail=""):
        self.wrong.append((what, f"{detail} after {self.log[-6:]!r}"))


class Server:
    """Identities with their scripts, and the monitor."""

    def __init__(self, ctx, version):
        self.ctx, self.version, self.scripts, self.n = ctx, version, {}, 0
        self.lock, self.ids, self.stray = threading.Lock(), {}, []
        self.fs = FakeServer(self.serve, version=version, raw=True)
        self.port = self.fs.port

    def add(self, script):
        with self.lock:
            self.n += 1
            i = b"u%d" % self.n
            self.scripts[i] = script
        return i

    def serve(self, sock, rec):
        ep = tlspsk.Endpoint(sock, "server", keys=lambda i: b"key", version=self.version)
        ep.keep_raw = True
        try:
            ep.handshake(30)
            ep.keep_raw = False
            script = self.scripts[ep.identity_seen]
            c = Conn(script)
            c.hello, c.version = ep.raw_in, ep.version()
            script.conns.append(c)
            try:
                self.session(ep, c)
            except (Closed, TLSError, TimeoutError, OSError) as e:
                c.log.append(("BROKEN", f"{type(e).__name__}: {e}"))
                c.bad("a connection is broken off or garbled", f"{type(e).__name__}: {e}")
            finally:
                c.over = True
        finally:
            ep.close()

    def line(self, ep, c):
        """The next request; None at the close notification."""
        try:
            l = ep.readline(90)
        except Closed:
            if ep.plain:
                c.bad("a request that does not end", f"{ep.plain[:200]!r}")
            if ep.close_notify_received:
                c.cn = True
                c.log.append(("NOTIFY",))
                return None
            c.bad("a connection ends without a TLS close notification", "reset" if ep.reset else "")
            return None
        c.log.append(("C", l[:200]))
        if len(l) > 1024:
            c.bad("a request line of more than 1024 octets", str(len(l)))
        if not l.endswith(b"\r\n"):
            c.bad("a request line is not CRLF-terminated", repr(l[-60:]))
        t = l.rstrip(b"\r\n")
        if not re.fullmatch(rb"[A-Za-z]{4}( [!-~]+)*", t):
            c.bad("a request that is not a keyword with single-spaced printable arguments", repr(t[:300]))
        return t

    def quiet(self, ep, c, what):
        """Nothing comes before the answer."""
        end = time.monotonic() + c.script.think
        while time.monotonic() < end and not ep.close_notify_received and not ep.eof:
            try:
                ep.fill(max(0, end - time.monotonic()))
            except TimeoutError:
                pass
            except Closed:
                break
            if ep.plain:
                break
        if ep.plain:
            c.bad(f"more is sent before the answer to {what}", repr(ep.plain[:200]))

    def say(self, ep, c, what, text):
        """-> whether the answer deviated."""
        self.quiet(ep, c, what)
        s = c.script
        dev = s.take(what)
        if dev:
            text = s.text
            c.said = s.kind
        c.log.append(("S", text[:60]))
        if ep.close_notify_received or ep.eof:
            return dev
        if s.pieces:
            for i in range(len(text)):
                ep.send(text[i:i + 1])
                time.sleep(.001)
        else:
            ep.send(text)
        if dev and s.kind == "BAIL":
            c.bailed = True
            if s.after:
                ep.shutdown()
        return dev

    def session(self, ep, c):
        t = self.line(ep, c)
        if t is None:
            c.bad("a connection without any request")
            return
        m = re.fullmatch(rb"(?i:MOIN) ([0-9]+) ([!-~]{2,64})", t)
        if not m or int(m[1]) != 1:
            c.bad("the first request is not MOIN with version 1 and an ID of 2 to 64 characters", repr(t[:200]))
            return
        c.id = m[2]
        self.say(ep, c, "MOIN", b"MOIN 1\r\n")
        up = c.said is None
        while True:
            if c.bailed or c.said in ("ODD", "VERSION") or c.said == "FAIL" and not up:
                return self.leave(ep, c, up)
            t = self.line(ep, c)
            if t is None:
                c.bad("a session is left without QUIT or BAIL")
                return self.end(ep, c)
            k = t[:4].upper()
            if k == b"PUSH":
                m = re.fullmatch(rb"(?i:PUSH) ([1-9][0-9]*)", t)
                if not m:
                    c.bad("a PUSH request without a size", repr(t[:100]))
                    return
                if self.say(ep, c, "PUSH", b"OKAY\r\n"):
                    if c.said == "FAIL":
                        c.said = "FAILED"          # more requests may follow
                    continue
                n = int(m[1])
                try:
                    d = ep.read(n, 60)
                except (Closed, TimeoutError) as e:
                    c.bad("a payload is shorter than announced", f"{n} announced; {e}; have {ep.plain[-100:]!r}")
                    return
                c.log.append(("DATA", len(d), d[:30], d[-10:]))
                if not d.endswith(b"\n") or d.endswith(b"\r\n") or d.count(b"\n") != 1:
                    c.bad("a payload that is not one newline-terminated line", f"{d[:100]!r}...{d[-30:]!r}")
                c.cmds.append(d)
                self.say(ep, c, "DATA", b"OKAY\r\n")
                if c.said == "FAIL":
                    c.said = "FAILED"
            elif k == b"QUIT":
                if t.upper() != b"QUIT":
                    c.bad("a QUIT request with arguments", repr(t))
                dev = self.say(ep, c, "QUIT", b"OKAY\r\n")
                if dev and not c.bailed:
                    t = self.line(ep, c)           # (a client may respond to that)
                    if t is not None and not re.fullmatch(rb"(?i:BAIL) .+", t):
                        c.bad("after an unexpected answer to QUIT, something other than BAIL is sent", repr(t[:200]))
                if not ep.close_notify_received and not c.bailed and c.said in (None, "FAILED"):
                    ep.shutdown()
                return self.end(ep, c)
            elif k == b"BAIL":
                if not re.fullmatch(rb"(?i:BAIL) .+", t):
                    c.bad("a BAIL request without a message", repr(t))
                return self.end(ep, c)
            elif k == b"NOOP":
                self.say(ep, c, "NOOP", b"OKAY\r\n")
            else:
                c.bad("an unknown request", repr(t[:100]))
                return self.end(ep, c)

    def leave(self, ep, c, up):
        """What may follow a deviation."""
        if not c.bailed and c.said != "FAIL":
            # Unknown responses, other versions: the client has to give up, and to say so.
            t = self.line(ep, c)
            if t is None:
                c.bad("the client does not reply to an unsupported version with BAIL" if c.said == "VERSION" else "the client leaves without QUIT or BAIL after an unknown response")
                return self.end(ep, c)
            if not re.fullmatch(rb"(?i:BAIL) .+", t) and (c.said == "VERSION" or not up or t.upper() != b"QUIT"):
                c.bad("after an unsupported version or an unknown response, something other than BAIL is sent", repr(t[:200]))
        elif c.said == "FAIL":
            # MOIN may be tried again, or the session given up.
            t = self.line(ep, c)
            if t is not None and not re.fullmatch(rb"(?i:QUIT|BAIL .+)", t):
                c.bad("after a refused MOIN, something other than QUIT or BAIL is sent", repr(t[:200]))
        self.end(ep, c)

    def end(self, ep, c):
        """Nothing more, but the close notification."""
        try:
            if not c.cn:
                d = ep.read_to_end(90)
                if d:
                    c.bad("more is sent after the end of the session", repr(d[:200]))
            if ep.close_notify_received:
                c.cn = True
                try:
                    ep.shutdown()
                except Closed:
                    pass
        except TimeoutError:
            c.bad("a finished connection is not closed")
            return
        if not c.cn and not any("close notification" in w for w, _ in c.wrong):
            c.bad("a connection ends without a TLS close notification", "reset" if ep.reset else "")

    def close(self):
        self.fs.close()


def suites(hello):
    """The cipher suites in a ClientHello."""
    b = hello[5:]
    if hello[:1] != b"\x16" or b[:1] != b"\x01":
        return None
    p = 4 + 2 + 32
    p += 1 + b[p]
    n = int.from_bytes(b[p:p + 2], "big")
    return [int.from_bytes(b[i:i + 2], "big") for i in range(p + 2, p + 2 + n, 2)]


def judge(ctx, srv, who, script, least, key):
    """All connections of one run or object are over."""
    wait_for(lambda: len(script.conns) >= least and all(c.over for c in script.conns), 120)
    if len(script.conns) < least:
        raise Violation(f"{who}: no connection at all", repr(key), soft=True)
    for c in script.conns:
        if not c.over:
            raise Violation(f"{who}: a connection does not end", f"{c.log[-8:]!r}", soft=True)
        if c.wrong:
            w, d = c.wrong[0]
            raise Violation(f"{who}: {w}", f"{d}\n{c.wrong!r}\n{key!r} {c.version}"[:4000])
        s = suites(c.hello)
        if not s or 0x8d not in s:
            raise Violation(f"{who}: TLS_PSK_WITH_AES_256_CBC_SHA is not offered", f"{[hex(x) for x in s or []]}")
        if c.id is not None:
            with srv.lock:
                if c.id in srv.ids:
                    raise Violation(f"{who}: a session ID is used twice", f"{c.id!r} {key!r} {srv.ids[c.id]!r}")
                srv.ids[c.id] = key
        ctx.case((who, *key, c.version), c.id is not None, sample=f"{who} {c.version}: {[(e[0], e[1]) if len(e) > 1 else e for e in c.log]!r}"[:600])
        ctx.count(f"{who}: connections")
        ctx.count("requests judged", sum(1 for e in c.log if e[0] == "C"))
        ctx.count("close notifications", int(c.cn))


def plans(r, many):
    """(point, kind, text)"""
    out = [(None, None, None)]
    for p in [("MOIN", 0), ("PUSH", 0), ("PUSH", 1), ("DATA", 0), ("DATA", 1), ("QUIT", 0)]:
        for kind, texts in (("FAIL", FAIL), ("BAIL", BAIL), ("ODD", ODD), ("VERSION", VERSION)):
            if kind == "VERSION" and p[0] != "MOIN":
                continue
            for t in r.sample(texts, min(many, len(texts))):
                out.append((p, kind, t))
    return out


def script(r, p, kind, t):
    return Script(p, kind, t, think=r.choice([.002, .01, .03, .1]), pieces=r.random() < .2, after=r.random() < .5)


def word(r, n):
    return bytes(r.choice(b"abcXYZ019 .,:/=%&*()'") for _ in range(n)).strip() or b"w"


def shell(ctx, srv, r, p, kind, t):
    s = script(r, p, kind, t)
    n = 2 if p and p[1] else r.choice([0, 1, 2, 3, 6]) if p is None or p[0] in ("MOIN", "QUIT") else r.choice([1, 2, 3])
    raw = r.random() < .3
    big = r.random() < .1

    def rec():
        x = word(r, r.choice([1, 5, 40, 300]))
        if not raw and r.random() < .3:
            x += r.choice([b"\\", b"\n", b"\r\n", b"\\n"]) + word(r, 5)
        if raw:
            return r.choice([b"", b"[1700000000] "]) + b"CMD;" + x + b"\n"
        return b"\t".join([b"host", *([b"svc"] if r.random() < .6 else []), b"%d" % r.randrange(4), x + b"z" * (r.choice([2000, 17000, 70000]) if big else 0)]) + b"\n\x17"
    data = b"".join(rec() for _ in range(n))
    ident = srv.add(s)
    res = cl.send_nsca(ctx, ["-C"] if raw else [], data, cl.conf(ident, srv.port, b"key", timeout=60), variant="plain", limit=150)
    if res.timed_out:
        raise Violation("send_nsca does not end", f"{p} {kind} {t!r}", soft=True)
    judge(ctx, srv, "send_nsca", s, 1, (p, kind, t, n, raw, s.pieces))
    if p is None and res.rc != 0:
        raise Violation("send_nsca fails although everything was acknowledged", f"{res.rc} {res.err[-500:]!r}")


def module(ctx, srv, lang, k, items):
    """Objects of one interpreter, with a script each."""
    r = random.Random(f"{ctx.seed}/c36/{lang}/{k}/{srv.version}")
    with Driver(ctx, lang) as drv:
        done = []
        for i, (p, kind, t) in enumerate(items):
            s = script(r, p, kind, t)
            ident = srv.add(s)
            o = f"o{i}"
            if lang == "python":
                res = drv("new", o, U("127.0.0.1"), srv.port, U(ident.decode()), U("key"))
            else:
                res = drv("new", o, U("127.0.0.1"), B(ident), B(b"key"), port=srv.port, timeout=60, node_name=U("node"), svc_description=U("svc"))
            if not res["ok"]:
                raise Violation(f"{lang}: an object cannot be created", repr(res))
            n = 2 if p and p[1] else r.choice([1, 1, 2, 3])
            for _ in range(n):
                x = word(r, r.choice([1, 5, 40, 300, 800]))
                op = r.choice(["svc", "host"] + (["cmd"] if lang == "perl" else []))
                if lang == "python":
                    a = [U("host"), *([U("svc")] if op == "svc" else []), r.randrange(4), U(x.decode()), 60]
                    res = drv(op, o, *a)
                elif op == "cmd":
                    res = drv(op, o, B(r.choice([b"", b"[1700000000] "]) + b"CMD;" + x + r.choice([b"", b"\n"])))
                else:
                    res = drv(op, o, r.randrange(4), B(x))
                if p is None and not res["ok"]:
                    raise Violation(f"{lang}: a call fails although everything was acknowledged", repr(res))
            # Either the object or the interpreter goes.
            if r.random() < .7:
                drv("del", o)
                judge(ctx, srv, lang, s, 1, (p, kind, t, n, s.pieces))
            else:
                done.append((s, (p, kind, t, n, s.pieces, "end")))
        drv.end()
        for s, key in done:
            judge(ctx, srv, lang, s, 1, key)


def ids(ctx, srv, n, k):
    """Many short sessions: their IDs differ."""
    s = Script(think=0)
    ident = srv.add(s)
    c = cl.conf(ident, srv.port, b"key", timeout=60)
    for i in range(n):
        res = cl.send_nsca(ctx, ["-C"], b"CMD;x\n", c, variant="plain", limit=150)
        if res.timed_out:
            raise Violation("send_nsca does not end", "many sessions", soft=True)
    judge(ctx, srv, "send_nsca", s, n, ("many", k))
    ctx.count("session IDs compared", n)


def run(ctx):
    build.client("plain"), build.python_ext("plain"), build.perl_ext("plain")
    rounds = 0
    while True:
        r = random.Random(f"{ctx.seed}/c36/{rounds}")
        srvs = {v: Server(ctx, v) for v in ("1.2", "1.3")}
        jobs = []
        for v, srv in srvs.items():
            ps = plans(r, ctx.n(2, 10)) + [(None, None, None)] * ctx.n(3, 20)
            r.shuffle(ps)
            jobs += [("shell", srv, r.random(), *p) for p in ps]
            for lang in ("python", "perl"):
                ps = plans(r, ctx.n(2, 10)) + [(None, None, None)] * ctx.n(4, 20)
                r.shuffle(ps)
                m = ctx.n(4, 8)
                jobs += [("module", srv, lang, f"{rounds}/{i}", ps[i::m]) for i in range(m)]

        jobs += [("ids", srvs["1.2"], 85, i) for i in range(8)]

        def job(j):
            if j[0] == "ids":
                ids(ctx, *j[1:])
            elif j[0] == "shell":
                shell(ctx, j[1], random.Random(j[2]), *j[3:])
            else:
                module(ctx, *j[1:])
        try:
            jobs.sort(key=lambda j: j[0] == "shell")
            ctx.pmap(job, jobs, 16)
        finally:
            for s in srvs.values():
                s.close()
        rounds += 1
        if not ctx.thorough or ctx.left(20, 700) <= 0:
            break
    ctx.count("rounds", rounds)
