"""C23: send_nsca reports success only if everything was acknowledged.  Oracle: exit status against the
acknowledgements a scripted server gave; lockstep monitor on everything the client sends."""
import random, threading
from nlib import *
import cl

TECHNIQUE = "runtime monitoring: fault-injecting scripted server with a lockstep monitor, exit-status oracle"
NOTE = ("At every point of the protocol (handshake, MOIN, each PUSH, each payload, QUIT) the server refuses, bails out, answers something else, closes in "
        "several ways, stalls, or answers in fragments; the exit status must be 0 exactly when all was acknowledged, a message must appear on standard "
        "error otherwise, and nothing may be sent while an answer is outstanding.")
RULE = ("one case = one run of send_nsca to its end; distinct = distinct (point, deviation, number of records, TLS version, raw, timing); "
        "non-trivial = the server got to the scripted point (or the connection was meant to fail before)")
ASSUMPTIONS = ["if the server acknowledges QUIT but does not close the TLS connection cleanly, either exit status is accepted"]

REFUSE = [b"FAIL no\r\n", b"FAIL\r\n", b"BAIL sorry, out of order\r\n", b"BAIL\r\n", b"FAIL %s%n%s\r\n", b"FAIL " + b"x" * 900 + b"\r\n", b"FAIL no\n"]
ODD = [b"\r\n", b"OK\r\n", b"OKAYNOT stored\r\n", b"OKAY1\r\n", b"MOIN 1 OKAY\r\n", b"NOPE\r\n", b"OKAYISH\r\n", b"YOKAY\r\n", b"PONG 1\r\n", b"404 Not Found\r\n", b"OKA\r\n", b" OKAY\r\n", b"O\r\nKAY\r\n", b"\x00\r\n", b"\xff\xfe\xfd\r\n",
       b"QUIT\r\n", b"PUSH 5\r\n", b"KO\r\n", b"-OKAY\r\n", b"%s%s%n\r\n", b"NOT OKAY\r\n", b"FAI\r\n"]
ODD_MOIN = [b"OKAY\r\n", b"MOIN\r\n", b"MOIN 2\r\n", b"MOIN 0\r\n", b"MOIN -1\r\n", b"MOIN x\r\n", b"MOIN 1 2\r\n", b"MOI 1\r\n", b"MOIN 10\r\n", b"MOIN 11\r\n", b"MOIN 4294967297\r\n"[:9] + b"\r\n", b"MOIN 257\r\n", b"MOIN 513\r\n", b"MOIN 65537\r\n", b"MOIN 100\r\n"]


class Lock:
    """Server side of one run: checks the lockstep, deviates at one point."""
    whole = True

    def __init__(self, point, deviation, think, frag):
        self.point, self.deviation, self.think, self.frag = point, deviation, think, frag
        self.reached = False
        self.wrong = []
        self.acked, self.cmds, self.quit, self.answered_quit = 0, [], False, False

    def quiet(self, ep, what):
        """Nothing may arrive while the client waits for an answer."""
        end = time.monotonic() + self.think
        while True:
            if self.reached and re.fullmatch(rb"(BAIL [ -~]*\r\n)+", bytes(ep.plain)):
                raise Closed("the client bailed out")      # it read an extra line the server had sent
            if ep.plain:
                self.wrong.append(f"{ep.plain[:80]!r} was sent before the answer to {what!r}")
                return
            left = end - time.monotonic()
            if left <= 0:
                return
            try:
                if not ep.fill(left):
                    raise Closed("closed while waiting for the answer to " + repr(what))
            except TimeoutError:
                pass

    def answer(self, ep, point, what, text):
        """True to go on."""
        self.quiet(ep, what)
        if point == self.point:
            self.reached = True
            d = self.deviation
            if callable(d):
                return d(self, ep, text)
            if d is not None:
                ep.send(d)
                return False
        if self.frag:
            for i in range(len(text)):
                ep.send(text[i:i + 1])
                time.sleep(.003)
        else:
            ep.send(text)
        return True

    def __call__(self, ep, rec):
        n = 0
        try:
            l = ep.readline(40)
            if not re.fullmatch(rb"MOIN 1 [!-~]{2,64}\r\n", l):
                self.wrong.append(f"first request {l!r}")
            if not self.answer(ep, "MOIN", l, b"MOIN 1\r\n"):
                return self.drain(ep)
            while True:
                l = ep.readline(40)
                if l == b"QUIT\r\n":
                    self.quit = True
                    if not self.answer(ep, "QUIT", l, b"OKAY\r\n"):
                        return self.drain(ep)
                    self.answered_quit = True
                    ep.shutdown()
                    ep.read_to_end(20)
                    return
                m = re.fullmatch(rb"PUSH (\d+)\r\n", l)
                if not m:
                    if not l.startswith(b"BAIL"):
                        self.wrong.append(f"request {l!r}")
                    return self.drain(ep)
                if not self.answer(ep, ("PUSH", n), l, b"OKAY\r\n"):
                    return self.drain(ep)
                d = ep.read(int(m.group(1)), 40)
                self.cmds.append(d)
                if not d.endswith(b"\n") or d.count(b"\n") != 1:
                    self.wrong.append(f"payload {d[:80]!r}...{d[-20:]!r} is not one line")
                if not self.answer(ep, ("DATA", n), d[:40], b"OKAY\r\n"):
                    return self.drain(ep)
                self.acked += 1
                n += 1
        except (Closed, TimeoutError, TLSError, OSError) as e:
            rec["events"].append(("END", str(e)))

    def drain(self, ep):
        """After a deviation: only a BAIL (or nothing) may come."""
        if ep.sock is None:
            return
        try:
            while True:
                l = ep.readline(20)
                if re.fullmatch(rb"BAIL [ -~]*\r\n", l):
                    continue
                self.wrong.append(f"after the deviation at {self.point} the client sent {l[:200]!r}")
                m = re.fullmatch(rb"PUSH (\d+)\r\n", l)
                ep.send(b"OKAY\r\n")          # play along
                if m:
                    ep.read(int(m.group(1)), 20)
                    ep.send(b"OKAY\r\n")
                elif l == b"QUIT\r\n":
                    ep.shutdown()
        except (Closed, TimeoutError, TLSError, OSError):
            self.part(ep)

    def part(self, ep):
        """Answer the client's close notify, so that what it thinks of the responses alone decides on its exit status."""
        try:
            ep.shutdown()
            ep.read_to_end(5)
        except (Closed, TimeoutError, TLSError, OSError):
            return


def fin(lock, ep, text):
    ep.sock.shutdown(socket.SHUT_WR)
    time.sleep(.05)
    ep.close()
    return False


def rst(lock, ep, text):
    ep.close(rst=True)
    return False


def notify(lock, ep, text):
    ep.shutdown()
    return False


def notify_close(lock, ep, text):
    ep.shutdown()
    ep.close()
    return False


def partial(lock, ep, text):
    ep.send(text[:-2])
    time.sleep(.02)
    ep.shutdown()
    return False


def stall(lock, ep, text):
    t = time.monotonic()
    while time.monotonic() - t < 40:
        try:
            if not ep.fill(40):
                break
        except (Closed, TimeoutError, TLSError):
            break
    return False


def stall_partial(lock, ep, text):
    ep.send(text[:-1])
    return stall(lock, ep, text)


def then_close(lock, ep, text):
    """The right answer, and the connection closed at once."""
    ep.send(text)
    ep.shutdown()
    ep.close()
    return False


def then_fail(lock, ep, text):
    ep.send(text + b"FAIL second thoughts\r\n")
    return True


def too_long(lock, ep, text):
    ep.send(b"OKAY" + b"y" * 5000 + b"\r\n")
    return False


def garbage(lock, ep, text):
    ep.send_raw(b"\x00" * 50)
    return False


DEV = {f.__name__: f for f in (fin, rst, notify, notify_close, partial, stall, stall_partial, then_close, then_fail, too_long, garbage)}


def one(ctx, hubs, item):
    point, dev, n, ver, raw, think, frag, big, level = item
    hub = hubs[ver]
    d = DEV.get(dev, dev) if isinstance(dev, str) else dev
    lock = Lock(point, d, think, frag)
    sizes = [big if k == n - 1 else 20 for k in range(n)]
    if raw:
        data = b"".join(b"[%d] C%d;%s\n" % (k + 1, k, b"x" * z) for k, z in enumerate(sizes))
    else:
        data = b"\x17".join(b"h%d\t0\t%s" % (k, b"x" * z) for k, z in enumerate(sizes))
    stalls = isinstance(dev, str) and dev.startswith("stall")
    tmo = 1 if stalls else 40
    args = (["-C"] if raw else []) + level
    r = cl.run(ctx, hub, data, args, lock, timeout=tmo, limit=60, what=f"with {dev!r} at {point}")
    what = f"{dev!r} at {point}, {n} records, TLS {ver}"
    detail = f"{r.argv} exit {r.rc}, {r.err[-300:]!r}; acknowledged {lock.acked} of {n}, QUIT {lock.answered_quit}; {[x.get('error') for x in r.recs]}"
    if lock.wrong:
        raise Violation(f"{what}: {lock.wrong[0]}", detail)
    if point is None:
        if lock.acked != n or not lock.answered_quit or len(lock.cmds) != n:
            raise Violation(f"{what}: not everything was submitted", detail)
        if r.rc != 0:
            raise Violation(f"{what}: exit status {r.rc} although everything was acknowledged", detail)
    else:
        if not lock.reached:
            raise Violation(f"{what}: the client did not get there", detail)
        ok_quit = point == "QUIT" and dev in ("then_close", "then_fail")
        if r.rc == 0 and not ok_quit:
            raise Violation(f"{what}: exit status 0", detail)
        if r.rc != 0 and not r.err.strip():
            raise Violation(f"{what}: no message", detail)
        if r.rc < 0:
            raise Violation(f"{what}: killed by signal {-r.rc}", detail)
        # nothing may be left out or repeated before the deviation
        want, _ = cl.meaning(data, raw)
        if len(lock.cmds) > n or not all(cl.same(g, w, r.t0, r.t1) for g, w in zip(lock.cmds, want)):
            raise Violation(f"{what}: wrong commands", f"{detail} {[c[:80] for c in lock.cmds]!r}")
    if stalls and r.secs > 15:
        raise Violation(f"{what}: gave up after {r.secs:.1f} s only, timeout 1 s", detail, soft=True)
    if lock.cmds:
        ctx.count("payloads sent in lockstep", len(lock.cmds))
    ctx.count("success" if r.rc == 0 else "failure reported")
    ctx.case((str(point), repr(dev), n, ver, raw, frag, big, tuple(level)), True)


def early(ctx, hub, kind):
    """Nothing to talk to."""
    stop = []
    key, args, more = b"pw", [], b""
    port, host = hub.port, b"127.0.0.1"
    ident = hub.add(Lock(None, None, 0, False))
    extra = None
    tmo = 3
    if kind == "wrong key":
        key = b"other"
    elif kind == "unknown identity":
        ident = b"nobody"
    elif kind == "refused":
        port = free_port()
    elif kind == "no such host":
        host = b"no-such-host.invalid"
    elif kind == "bad port":
        args = ["-p", "no-such-service"]
    elif kind == "directory as input":
        pass
    else:
        def raw(c, rec):
            c.settimeout(20)
            try:
                if kind == "close at once":
                    return
                if kind == "rst at once":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
                c.recv(1)
                if kind == "plain text":
                    c.sendall(b"220 hello there\r\nOKAY\r\nMOIN 1\r\nOKAY\r\n")
                elif kind == "plain MOIN":
                    c.sendall(b"MOIN 1\r\nOKAY\r\nOKAY\r\nOKAY\r\n")
                elif kind == "zeros":
                    c.sendall(b"\0" * 4096)
                elif kind == "alert":
                    c.sendall(b"\x15\x03\x03\x00\x02\x02\x28")
                elif kind == "half hello":
                    c.sendall(b"\x16\x03\x03\x00\x7a\x02\x00\x00\x76\x03\x03" + b"a" * 20)
                    c.recv(100000)
                    while c.recv(4096):
                        pass
                elif kind == "silent":
                    while c.recv(4096):
                        pass
            except OSError:
                pass
        extra = FakeServer(raw, raw=True)
        port = extra.port
    tmo = 1 if kind in ("silent", "half hello") else 20
    data = b"h\t0\tok"
    if kind == "directory as input":
        fd = os.open("/", os.O_RDONLY)
        data = _Dir(fd)
    r = cl.send_nsca(ctx, args, data, cl.conf(ident, port, key, tmo, host=host))
    if extra:
        extra.close()
    if r.san:
        raise Violation("sanitizer report: " + first_line(r.san), r.san[:6000])
    if r.timed_out:
        raise Violation(f"{kind}: send_nsca did not end", soft=True)
    if r.rc <= 0 or not r.err.strip():
        raise Violation(f"{kind}: exit status {r.rc}, message {r.err[-300:]!r}")
    ctx.count("connections that could not work")
    ctx.case(("early", kind), True)


class _Dir:
    def __init__(self, fd):
        self.fd = fd

    def fileno(self):
        return self.fd

    def close(self):
        os.close(self.fd)


def real(ctx, item):
    """Against the real server: what the server logs as queued is what an exit status of 0 covers."""
    seed = item
    r = random.Random(f"{ctx.pid}/{ctx.seed}/real/{seed}")
    auth = ('authorize "id" {\n password = "pw"\n hosts = "good.*"\n}\n'
            'authorize "none" {\n password = "pw"\n}\n')
    with Server(ctx, auth=auth, loglevel=3) as s:
        for k in range(6):
            n = r.randrange(0, 6)
            bad = r.choice([None, r.randrange(n)]) if n else None
            who = r.choice([b"id", b"id", b"id", b"none"])
            if who == b"none" and n:
                bad = 0
            tag = b"t%d-%d" % (seed, k)
            recs = [(b"evil" if j == bad and who == b"id" else b"good") + b"%d\t0\t%s" % (j, tag) for j in range(n)]
            c = cl.send_nsca(ctx, [], b"\x17".join(recs), cl.conf(who, s.port))
            if c.san:
                raise Violation("sanitizer report: " + first_line(c.san), c.san[:6000])
            ok = bad is None
            if (c.rc == 0) != ok or (not ok and not c.err.strip()):
                raise Violation(f"against the real server: {n} results, number {bad} refused, but exit status {c.rc}: {c.err[-300:]!r}")
            want = n if ok else bad
            if not s.wait_fifo(lambda d: d.count(tag) >= want, 10) and want:
                raise Violation(f"exit status {c.rc}, but only {s.fifo.snapshot().count(tag)} of {want} results reached the command file", soft=True)
            ctx.count("runs against the real server")
            ctx.case(("real", seed, k), n > 0)


def run(ctx):
    hubs = {v: cl.Hub(ctx, version=v) for v in ("1.2", "1.3")}
    r = ctx.rng
    items = []
    for point in ["MOIN", ("PUSH", 0), ("DATA", 0), ("PUSH", 1), ("DATA", 1), ("DATA", 2), "QUIT"] + ([("PUSH", 2), ("PUSH", 7), ("DATA", 9)] if ctx.thorough else []):
        devs = list(REFUSE) + [d for d in ODD] + (ODD_MOIN if point == "MOIN" else [b"MOIN 1\r\n"]) + list(DEV)
        for d in devs:
            if d == "then_fail" and point == "QUIT":
                continue
            for _ in range(ctx.n(1, 3)):
                least = 0 if point in ("MOIN", "QUIT") else point[1] + 1
                n = r.choice([least, least, least + 1, least + 2])
                items.append((point, d, n, r.choice(["1.2", "1.3"]), r.random() < .4, r.choice([0, 0, .002, .03]), r.random() < .2,
                              r.choice([5, 5, 100, 16000, 70000]), r.choice([[], [], ["-v"], ["-vvv"]])))
    for _ in range(ctx.n(24, 300)):
        items.append((None, None, r.choice([0, 1, 2, 5, 12]), r.choice(["1.2", "1.3"]), r.random() < .4, r.choice([0, .002, .03, .1]), r.random() < .4,
                      r.choice([5, 100, 16000, 70000]), r.choice([[], [], ["-v"], ["-vvv"]])))
    r.shuffle(items)
    try:
        ctx.pmap(lambda i: one(ctx, hubs, i), items, workers=12)
        ctx.pmap(lambda k: early(ctx, hubs["1.3"], k), ["wrong key", "unknown identity", "refused", "no such host", "bad port", "close at once", "rst at once",
                                                        "plain text", "plain MOIN", "zeros", "alert", "half hello", "silent", "directory as input"])
        ctx.pmap(lambda k: real(ctx, k), range(ctx.n(2, 20)))
    finally:
        for h in hubs.values():
            h.close()
