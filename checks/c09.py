"""C09: the server answers every request as the protocol specifies.  Oracle: a reference state
machine written from PROTOCOL, run in step with many interleaved sessions."""
import random, threading
import flow
from nlib import *

TECHNIQUE = "runtime monitoring: online reference state machine (from PROTOCOL) over random request sequences"
NOTE = ("Every response of every session is compared with a state machine written from PROTOCOL, with interleaved sessions; request "
        "sequences are random, plus all sequences up to length 3 (quick) or 4 (thorough) over one representative per request kind.")
RULE = ("one case = one request answered; distinct = distinct (state, request shape, previous request shape); non-trivial = the "
        "response was predicted by the state machine and compared")
ASSUMPTIONS = ["not judged: a keyword directly followed by further characters, tabs or repeated blanks, surplus arguments of PING, NOOP, "
               "QUIT, a malformed version in PING, BAIL without a message"]

GOOD, BAD = b"C;%s", b"D;%s"
AUTH = 'authorize "id" {\n password = "pw"\n commands = "C;.*"\n}\nauthorize "other" {\n password = "pw2"\n commands = "D;.*"\n}\n'


def mix(r, b):
    return bytes(c ^ 0x20 if chr(c).isalpha() and r.random() < 0.5 else c for c in b)


def sid(r):
    return bytes(r.choice(range(33, 127)) for _ in range(r.choice([2, 3, 8, 16, 64, r.randint(2, 64)])))


def request(r, kind):
    """-> (line without terminator, shape)"""
    kw = lambda b: mix(r, b) if r.random() < 0.5 else b
    if kind == "MOIN":
        return kw(b"MOIN") + b" " + r.choice([b"1", b"1", b"1", b"2", b"17"]) + b" " + sid(r)
    if kind == "MOINbad":
        return r.choice([kw(b"MOIN"), kw(b"MOIN") + b" 1", kw(b"MOIN") + b" 0 " + sid(r), kw(b"MOIN") + b" -1 " + sid(r), kw(b"MOIN") + b" x " + sid(r),
                         kw(b"MOIN") + b" 1 ab cd", kw(b"MOIN") + b" 1 ab cd ef gh"])
    if kind == "PING":
        return kw(b"PING") + b" " + r.choice([b"1", b"1", b"1", b"2", b"17"])
    if kind == "BAIL":
        return kw(b"BAIL") + b" I'm feeling bad" + b" %s %n" * r.randint(0, 2)
    if kind in ("NOOP", "QUIT"):
        return kw(kind.encode())
    if kind == "PUSHbad":
        return r.choice([kw(b"PUSH"), kw(b"PUSH") + b" 0", kw(b"PUSH") + b" -5", kw(b"PUSH") + b" five", kw(b"PUSH") + b" 5 6", kw(b"PUSH") + b" 17 x y",
                         kw(b"PUSH") + b" 5\x0b", kw(b"PUSH") + b" 5\x0c7", kw(b"PUSH") + b" 5\x01", kw(b"PUSH") + b" 0x11", kw(b"PUSH") + b" 0b11", kw(b"PUSH") + b" 1e1", kw(b"PUSH") + b" 5."])
    if kind == "PUSHbig":
        return kw(b"PUSH") + b" %d" % r.choice([16385, 20000, 999999])
    if kind == "junk":
        return r.choice([b"", b" ", b"X", b"HELO 1 abc", b"OKAY", b"FAIL what", b"PONG 1", b" MOIN 1 abcd", b" QUIT", b"MOI", b"QUI", b"%s%n%x%d",
                         bytes(r.choice([c for c in range(1, 256) if c not in (10, 13)]) for _ in range(r.randint(5, 200))), b"A" * 1000])
    raise ValueError(kind)


FAILRE = re.compile(rb"^FAIL [ -~]+\r\n$")
KINDS = ["MOIN", "MOINbad", "PING", "BAIL", "NOOP", "QUIT", "PUSH", "PUSHbad", "PUSHbig", "PUSHdenied", "junk"]
JUNKKW = re.compile(rb"^(moin|ping|bail|noop|quit|push)", re.I)


class Model:
    def __init__(self, ctx, srv, who, r, version=None):
        self.ctx, self.srv, self.who, self.r = ctx, srv, who, r
        self.s = sess(srv.port, who, b"pw" if who == b"id" else b"pw2", moin=False, version=version)
        self.state, self.prev, self.accepted = "H", None, []
        self.over = False

    def fail(self, what):
        raise Violation(what, "\n".join(f"{a} {b!r:.300}" for a, b in self.s.log[-12:]) + f"\nstate {self.state}")

    def expect(self, got, want):
        if want == "FAIL":
            if not FAILRE.match(got):
                self.fail(f"expected FAIL, got {got!r:.200}")
        elif got != want:
            self.fail(f"expected {want!r}, got {got!r:.200}")

    def closed(self, extra=b""):
        e = self.s.e
        rest = e.read_to_end(10)
        if rest:
            self.fail(f"unexpected data before the connection was closed: {rest[:200]!r}")
        if not e.close_notify_received:
            self.fail("the TLS connection was not shut down cleanly")
        try:
            e.shutdown()
        except (Closed, TLSError):
            pass
        e.close()
        self.over = True

    def step(self, kind):
        r, s = self.r, self.s
        end = b"\r\n" if r.random() < 0.5 else b"\n"
        shape = (self.state, kind, self.prev, end)
        self.prev = kind
        self.ctx.case(shape)
        self.ctx.count("requests")
        if kind == "PUSH" or kind == "PUSHdenied":
            mine = GOOD if self.who == b"id" else BAD
            other = BAD if self.who == b"id" else GOOD
            text = (mine if kind == "PUSH" else other) % (b"%x" % r.getrandbits(64) + b"x" * r.choice([0, 5, 300]))
            line = b"[%d] %s\n" % (now(), text)
            got = s.cmd(mix(r, b"PUSH") + b" %d" % len(line), end)
            if self.state == "H":
                return self.expect(got, "FAIL")
            self.expect(got, b"OKAY\r\n")
            s.log.append(("C", line))
            s.e.send(line)
            got = s.line()
            self.expect(got, b"OKAY\r\n" if kind == "PUSH" else "FAIL")
            if kind == "PUSH":
                self.accepted.append(line)
            return
        line = request(r, kind)
        if kind == "junk" and JUNKKW.match(line):
            line = b"_" + line
        if kind == "BAIL":
            s.log.append(("C", line))
            s.e.send(line + end)
            return self.closed()
        got = s.cmd(line, end)
        if kind == "PING" and self.state == "H":
            self.expect(got, b"PONG 1\r\n")
            return self.closed()
        if kind == "MOIN" and self.state == "H":
            self.expect(got, b"MOIN 1\r\n")
            self.state = "C"
            return
        if kind == "NOOP" and self.state == "C":
            return self.expect(got, b"OKAY\r\n")
        if kind == "QUIT" and self.state == "C":
            self.expect(got, b"OKAY\r\n")
            return self.closed()
        if kind == "QUIT" and self.state == "H":
            # PROTOCOL: the first request is MOIN, PING or BAIL; ending the session
            # early with QUIT may be answered either way.
            if got == b"OKAY\r\n":
                return self.closed()
        self.expect(got, "FAIL")


def batch(ctx, seed):
    r = random.Random(f"{ctx.seed}/{seed}")
    with Server(ctx, auth=AUTH, opts="max_command_size = 16384", variant="asan" if seed % 2 else "plain", loglevel=r.choice([0, 3, 5])) as srv:
        live, done = [], []
        for step in range(ctx.n(700, 3000)):
            if len(live) < 6 and r.random() < 0.3 or not live:
                live.append(Model(ctx, srv, r.choice([b"id", b"other"]), r, r.choice(["1.2", "1.3"])))
            m = r.choice(live)
            if m.state == "H":
                k = r.choice(["MOIN"] * 5 + KINDS)
            else:
                k = r.choice(["PUSH"] * 4 + ["NOOP", "PUSHdenied"] + KINDS)
                if k in ("QUIT", "BAIL") and r.random() < 0.6:
                    k = "NOOP"
            m.step(k)
            if m.over:
                live.remove(m)
                done.append(m)
        for m in live:
            m.s.close()
        want = sorted(l for m in live + done for l in m.accepted)
        ok = srv.wait_fifo(lambda d: d.count(b"\n") >= len(want))
        got = sorted(split_stream(srv.fifo.snapshot())[0])
        if not ok or got != want:
            raise Violation("the delivered commands are not those that were answered with OKAY",
                            f"missing {[x for x in want if x not in got][:3]!r} extra {[x for x in got if x not in want][:3]!r}", soft=not ok)
        ctx.count("sessions", len(live) + len(done))
        if done and len(ctx.samples) < 4:
            ctx.samples.append([f"{a} {b!r:.80}" for a, b in max(done, key=lambda m: len(m.s.log)).s.log[:14]])


def exhaustive(ctx, first):
    """Every sequence of request kinds up to a length, starting with `first`."""
    import itertools
    L = ctx.n(3, 4)
    r = random.Random(f"{ctx.seed}/{first}")
    with Server(ctx, auth=AUTH, opts="max_command_size = 16384", variant="plain", loglevel=1) as srv:
        for rest in itertools.product(KINDS, repeat=L - 1):
            if ctx.left(80, 1200) < 0:
                break
            m = Model(ctx, srv, b"id", r)
            for k in (first,) + rest:
                m.step(k)
                if m.over:
                    break
            if not m.over:
                m.s.close()
            ctx.count("enumerated sequences")


def marathon(ctx, version):
    """One session of very many requests."""
    r = random.Random(f"{ctx.seed}/{version}")
    with Server(ctx, auth=AUTH, opts="max_command_size = 16384", variant="plain", loglevel=1) as srv:
        m = Model(ctx, srv, b"id", r, version)
        for k in ["MOINbad"] * 300 + ["junk"] * 300 + ["MOIN"]:
            m.step(k)
            m.s.log[:] = m.s.log[-20:]
        for i in range(ctx.n(2500, 40000)):
            m.step(r.choice(["PUSH"] * 4 + ["NOOP", "PUSHdenied", "PUSHbad", "PUSHbig", "junk", "MOIN", "PING"]))
            m.s.log[:] = m.s.log[-20:]
        ok = srv.wait_fifo(lambda d: len(expand(split_stream(d)[0], consume=False)[0]) >= len(m.accepted))
        got = expand(split_stream(srv.fifo.snapshot())[0], consume=False)[0]
        if sorted(got) != sorted(m.accepted):
            raise Violation("the delivered commands of a long session are not those that were answered with OKAY",
                            f"{len(m.accepted)} accepted, {len(got)} delivered", soft=not ok)
        m.step("QUIT")
        ctx.count("requests in one session", len(m.accepted))


def run(ctx):
    ctx.pmap(lambda v: marathon(ctx, v), ["1.2", "1.3"], 2)
    ctx.pmap(lambda s: batch(ctx, s), range(ctx.n(6, 40)), 6)
    # after MOIN (the interesting state) and from the start
    ctx.pmap(lambda k: exhaustive(ctx, k), ["MOIN", "MOINbad", "NOOP", "junk", "PUSH", "QUIT"] if ctx.thorough else ["MOIN", "junk"], 4)
