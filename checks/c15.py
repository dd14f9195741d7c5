"""C15: idle connections are closed on time, active ones are not.  Oracle: arrival time and manner
of the close in each phase, measured from the last activity."""
import random, socket, threading
from nlib import *
from c12 import partial_handshake, raw

TECHNIQUE = "runtime monitoring: timing monitor on the connections of a real server, per phase and over random activity schedules"
NOTE = ("In every phase the connection must end no earlier than the configured timeout and within half a timeout (at least 1 s) after it, silently "
        "before the session and with a BAIL within it; random activity schedules lasting several timeouts must not be cut off. "
        "Lateness is confirmed by repetition.")
RULE = ("one case = one connection observed to its end (or for several timeouts); distinct = distinct (phase, timeout, variant, schedule); "
        "non-trivial = the time and manner of the close were observed on both sides")
ASSUMPTIONS = ["the sandbox is not stalled for longer than the slack twice in a row"]


def hello(version):
    e = tlspsk.Endpoint(None, "client", b"id", b"pw", version=version)
    e.step()
    return e.pending_out()


class Conn:
    """A connection in some phase; .idle_since is the time of its last activity."""

    def __init__(self, srv, phase, r):
        self.srv, self.phase = srv, phase
        v = r.choice(["1.2", "1.3"])
        self.kind = "silent" if phase in ("tcp", "hello", "flight", "garbage") else "bail"
        self.s = None
        if phase == "tcp":
            self.sock = raw(srv, b"", "keep")
        elif phase == "hello":
            self.sock = raw(srv, hello(v)[:r.randrange(1, 60)], "keep")
        elif phase == "flight":
            # one flight: the server has answered and waits for our key exchange / Finished
            e = partial_handshake(srv, 1, r, v)
            e.feed(e.recv_raw(10))
            self.e, self.sock = e, e.sock
        else:
            s = self.s = sess(srv.port, version=v, moin=phase != "H")
            self.sock = s.e.sock
            if phase == "line":
                s.e.send(b"NOO")
            elif phase == "failed":
                s.cmd(b"gibberish")
            elif phase == "announced":
                s.cmd(b"PUSH 100")
            elif phase == "payload":
                s.cmd(b"PUSH 100")
                s.e.send(b"[1500000000] C;never")
            elif phase == "after":
                s.push(b"[1500000000] C;x\n")
            elif phase in ("quit", "ping", "bail"):
                pass
        self.idle_since = time.monotonic()
        if phase == "quit":
            s.cmd(b"QUIT")
        if phase == "bail":
            s.e.send(b"BAIL I am out\r\n")
        if phase in ("quit", "bail"):
            self.kind = "closing"
            self.idle_since = time.monotonic()


def lo_hi(T):
    return T * 0.93 - 0.02, T + max(1.0, T * 0.5)


def closed_at(sock, limit):
    """Bytes received up to the end, and when the end (EOF or reset) came; None if it did not."""
    data = b""
    end = time.monotonic() + limit
    sock.setblocking(False)
    while True:
        left = end - time.monotonic()
        if left < 0:
            return data, None
        p = select.poll()
        p.register(sock, select.POLLIN)
        if not p.poll(left * 1000 + 1):
            continue
        try:
            d = sock.recv(65536)
        except BlockingIOError:
            continue
        except OSError:
            return data, time.monotonic()
        if not d:
            return data, time.monotonic()
        data += d


def idle(ctx, srv, T, phase, seed):
    r = random.Random(f"{seed}/{phase}")
    c = Conn(srv, phase, r)
    port = c.sock.getsockname()[1]
    lo, hi = lo_hi(T)
    tag = f"phase {phase}, timeout {T}, {srv.variant}"
    ctx.case((phase, T, srv.variant, seed))
    ctx.count(f"idle: {phase}")
    if c.kind == "bail":
        try:
            l = c.s.e.readline(hi + 1)
        except TimeoutError:
            raise Violation("an idle connection was not closed", f"{tag}: nothing within {hi + 1:.1f} s", soft=True)
        except Closed as e:
            raise Violation("an idle session was closed without a BAIL", f"{tag}: {e}")
        t = time.monotonic() - c.idle_since
        if not re.match(rb"^BAIL [^\r\n]+\r\n$", l):
            raise Violation("an idle session was not ended with a BAIL", f"{tag}: {l!r}")
        if t < lo:
            raise Violation("a session was timed out too early", f"{tag}: after {t:.2f} s")
        if t > hi:
            raise Violation("an idle session was timed out too late", f"{tag}: after {t:.2f} s", soft=True)
        # that is the end: nothing but the closing of the connection follows, answered or not
        if r.random() < 0.5:
            rest = c.s.e.read_to_end(T * 2 + 5)
            if rest:
                raise Violation("something was sent after the BAIL", f"{tag}: {rest!r}")
            if not c.s.e.close_notify_received:
                raise Violation("a timed out session was closed without a closing alert", tag)
            c.s.close()
            t2, lim = time.monotonic(), 3.0
        else:
            t2, lim = time.monotonic(), hi
        if not wait_for(lambda: not has_peer(srv, port), lim + 1):
            raise Violation("the server holds on to a connection it has timed out", f"{tag}: {lim + 1:.1f} s after the BAIL", soft=True)
    else:
        data, t = closed_at(c.sock, hi + 1)
        if t is None:
            raise Violation("an idle connection was not closed", f"{tag}: still open after {hi + 1:.1f} s", soft=True)
        t -= c.idle_since
        if data and c.kind == "silent":
            raise Violation("something was sent when a handshake timed out", f"{tag}: {data!r}")
        if t < lo:
            raise Violation("a connection was timed out too early", f"{tag}: after {t:.2f} s")
        if t > hi:
            raise Violation("an idle connection was timed out too late", f"{tag}: after {t:.2f} s", soft=True)
        if wait_for(lambda: not has_peer(srv, port), 2) is None:
            raise Violation("the server holds on to a connection it has timed out", tag)
    c.sock.close()


def has_peer(srv, port):
    """Whether the server process still has a socket whose peer is our port."""
    want = "0100007F:%04X" % port
    mine = "0100007F:%04X" % srv.port
    inodes = set()
    with open("/proc/net/tcp") as f:
        for l in f:
            w = l.split()
            if len(w) > 9 and w[1] == mine and w[2] == want:
                inodes.add("socket:[%s]" % w[9])
    return bool(inodes & set(srv.fds().values()))


def unread(ctx, srv, T):
    """A client that has made the server queue more than fits and then neither reads nor writes."""
    s = sess(srv.port, rcvbuf=4096)
    port = s.e.sock.getsockname()[1]
    n = 0
    try:
        for _ in range(60):
            s.e.send(b"x\n" * 5000, 5)
            n += 1
    except (TimeoutError, Closed):
        pass
    t0 = time.monotonic()
    _, hi = lo_hi(T)
    # first the BAIL is queued, then the whole thing is given up
    if not wait_for(lambda: not has_peer(srv, port), 2 * T + hi + 6, 0.05):
        raise Violation("a connection that reads nothing is held open", f"timeout {T}: {time.monotonic() - t0:.1f} s", soft=True)
    t = time.monotonic() - t0
    ctx.case(("unread", T, srv.variant))
    ctx.count("idle: not reading")
    if t < T * 0.9 - 4:
        raise Violation("a connection was closed too early", f"not reading: {t:.2f} s")
    s.close()


def slow_reader(ctx, srv, T):
    """Keeps reading what the server has queued, slowly, for several timeouts: no idleness.
    The pace lets the server's socket become writable several times per timeout."""
    s = sess(srv.port, rcvbuf=65536, timeout=60)
    lines = 0
    for _ in range(100):
        s.e.send(b"x\n" * 5000, 60)
        lines += 5000
    t0 = last = time.monotonic()
    got, late, tail = 0, False, b""

    def read(n):
        nonlocal got, last, late, tail
        k = s.e.read(min(n, lines * 36 - got), 20)
        got += len(k)
        if time.monotonic() - last > 0.4 * T:
            late = True
        last = time.monotonic()
        tail = (tail + k)[-200:]
        if b"BAIL" in k:
            raise Closed("BAIL")
    try:
        while time.monotonic() - t0 < 3 * T:
            read(400000)
            time.sleep(T * 0.1)
        queued = lines * 36 - got
        while got < lines * 36:
            read(400000)
    except Closed as e:
        if late:
            raise Inconclusive("this side was late itself")
        raise Violation("a client that keeps reading was cut off", f"timeout {T}, {time.monotonic() - t0:.1f} s: {e} {tail!r}"[:600], soft=True)
    if s.cmd(b"NOOP") != b"OKAY\r\n":
        raise Violation("a client that keeps reading was cut off", f"timeout {T}: {s.log[-1]}")
    s.quit()
    ctx.case(("slow reader", T, srv.variant))
    ctx.count("active: reading slowly")
    ctx.count("bytes still queued after three timeouts of slow reading", queued)


def active(ctx, srv, T, seed, total):
    """Random activity with gaps below the timeout; then idleness."""
    r = random.Random(seed)
    sched, log = [], []
    t_end = time.monotonic() + total
    v = r.choice(["1.2", "1.3"])
    late = False
    last = time.monotonic()

    def gap():
        nonlocal last, late
        g = r.uniform(0.1, 0.72) * T
        time.sleep(g)
        if time.monotonic() - last > 0.9 * T:
            late = True
        last = time.monotonic()
        sched.append(round(g, 2))

    try:
        mode = r.choice(["handshake", "session", "bytes", "payload", "session", "keepmoin", "handshake2"])
        e = None
        if mode == "handshake":
            h = hello(v)
            e = tlspsk.connect(srv.port, b"id", b"pw", 20, version=v)
            e.step()
            h = e.pending_out()
            k = max(3, int(total / T / 0.3) // 2)
            cuts = sorted(r.sample(range(1, len(h)), k))
            for a, b in zip([0] + cuts, cuts + [len(h)]):
                e.send_raw(h[a:b])
                gap()
            e.handshake(20)
        elif mode == "handshake2":
            e = partial_handshake(srv, 1, r, v)
            e.feed(e.recv_raw(10))
            done = e.step()
            h = e.pending_out()
            k = min(len(h) - 1, max(3, int(total / T / 0.3) // 2))
            cuts = sorted(r.sample(range(1, len(h)), k))
            for a, b in zip([0] + cuts, cuts + [len(h)]):
                e.send_raw(h[a:b])
                gap()
            e.handshake(20)
        s = Sess(e, 20) if e else sess(srv.port, version=v, moin=False)
        last = time.monotonic()
        if mode == "keepmoin":
            while time.monotonic() < t_end:
                gap()
                if not s.cmd(b"hello").startswith(b"FAIL"):
                    raise Violation("wrong answer", repr(s.log[-1]))
        s.moin()
        if mode == "bytes":
            for b in b"PUSH 25\r\n":
                gap()
                s.e.send(bytes([b]))
            if s.line() != b"OKAY\r\n":
                raise Violation("an active session was cut off", f"{s.log[-1]}")
            s.e.send(b"[1500000000] C;%09d\n" % r.randrange(10**9))
            if s.line() != b"OKAY\r\n":
                raise Violation("an active session was cut off", f"{s.log[-1]}")
        if mode == "payload":
            p = b"[1500000000] C;%s\n" % (b"z" * r.choice([10, 3000]))
            s.cmd(b"PUSH %d" % len(p))
            k = max(4, int(total / T / 0.4))
            cuts = sorted(r.sample(range(1, len(p)), k))
            for a, b in zip([0] + cuts, cuts + [len(p)]):
                gap()
                s.e.send(p[a:b])
            if s.line() != b"OKAY\r\n":
                raise Violation("an active session was cut off", f"{s.log[-1]}")
        while time.monotonic() < t_end:
            gap()
            k = r.random()
            want = b"OKAY\r\n"
            if k < 0.4:
                got = s.cmd(b"NOOP")
            elif k < 0.8:
                got = s.push(b"[1500000000] C;%s\n" % (b"z" * r.choice([10, 3000])))
            else:
                got, want = s.cmd(b"what"), None
            if want and got != want or not want and not got.startswith(b"FAIL"):
                raise Violation("an active session was cut off", f"{got!r}")
        last = time.monotonic()
        ctx.case((seed, T, srv.variant))
        ctx.count(f"active: {mode}")
        # and now for the end
        lo, hi = lo_hi(T)
        l = s.e.readline(hi + 2)
        t = time.monotonic() - last
        if not l.startswith(b"BAIL "):
            raise Violation("an idle session was not ended with a BAIL", f"{l!r}")
        if t < lo:
            raise Violation("a session was timed out too early", f"{t:.2f} s after its last activity, timeout {T}, {mode}")
        if t > hi:
            raise Violation("an idle session was timed out too late", f"{t:.2f} s after its last activity, timeout {T}, {mode}", soft=True)
        s.close()
    except (Closed, TLSError, ConnectionError) as x:
        if late:
            raise Inconclusive(f"this side was late itself: {x}")
        raise Violation("an active connection was cut off", f"timeout {T}, {mode}, gaps {sched}, last activity {time.monotonic() - last:.2f} s ago: {x}"[:600], soft=True)
    except TimeoutError as x:
        raise Violation("an idle session was not closed", f"timeout {T}, {mode}: {x}", soft=True)
    except Violation as x:
        if late and "too late" not in x.what and "too early" not in x.what:
            raise Inconclusive(f"this side was late itself: {x}")
        raise


def never(ctx, srv, hold, phase, what):
    """No limit, or one far away: still there and usable after `hold` seconds of idleness."""
    c = Conn(srv, phase, random.Random(phase))
    data, t = closed_at(c.sock, hold)
    ctx.case((what, phase, srv.variant))
    ctx.count(f"{what}: {phase}")
    if t is not None:
        raise Violation(f"a connection was closed although its timeout is {what}", f"phase {phase}, {time.monotonic() - c.idle_since:.1f} s; {data[:50]!r}")
    if c.s:
        c.s.e.feed(data)
        c.s.e.decrypt()
        if c.s.e.plain:
            raise Violation(f"something was sent unasked although the timeout is {what}", f"{c.s.e.plain!r}")
        if phase == "line":
            c.s.e.send(b"P\r\n")
            a = c.s.line()
        elif phase in ("announced", "payload"):
            c.s.e.send((b"[1500000000] C;never" if phase == "announced" else b"") + b"z" * 79 + b"\n")
            a = c.s.line()
        elif phase == "H":
            a = c.s.cmd(b"MOIN 1 abcd")
        elif phase in ("quit", "bail"):
            a = None
        else:
            a = c.s.cmd(b"NOOP")
        if a not in (None, b"OKAY\r\n", b"MOIN 1\r\n"):
            raise Violation(f"a connection is dead although its timeout is {what}", f"phase {phase}: {a!r}")
    c.sock.close()


PHASES = ["tcp", "hello", "flight", "H", "C", "failed", "line", "announced", "payload", "after", "quit", "bail"]


def run(ctx):
    jobs, servers = [], []

    def start(T, variant, opts=None, loglevel=2, warp=None):
        s = Server(ctx, variant=variant, opts=f"timeout = {T}" if opts is None else opts, loglevel=loglevel,
                   env={"LD_PRELOAD": build.shim("warpshim.c"), "NSCA_WARP": str(warp)} if warp else {})
        if warp:
            s.variant = f"plain, clock {warp} times as fast"
        servers.append(s)
        return s
    Ts = [(2, "asan"), (1.5, "plain")] if not ctx.thorough else [(2, "asan"), (1.5, "plain"), (1, "asan"), (5, "plain"), (0.7, "plain"), (12, "plain")]
    for T, v in Ts:
        s = start(T, v, loglevel=5)
        for rep in range(ctx.n(2, 6)):
            for ph in PHASES:
                jobs.append((idle, (s, T, ph, f"{ctx.seed}/{rep}")))
        for k in range(ctx.n(16, 60)):
            jobs.append((active, (s, T, f"{ctx.seed}/{k}", ctx.n(4, 7) * T)))
        s2 = start(T, "plain", loglevel=0)
        jobs.insert(0, (slow_reader, (s2, T)))
        jobs.insert(0, (unread, (s2, T)))
    s0, sd = start(0, "plain"), start(None, "asan", "")
    for ph in PHASES:
        jobs.insert(0, (never, (s0, ctx.n(6, 30), ph, "0")))
        jobs.insert(0, (never, (sd, ctx.n(6, 30), ph, "60")))
    # Long times at an accelerated clock: the default, an hour, a day; no limit for hours; sessions as long.
    for T, opts, warp in ((60, "", 20), (3600, None, 1500), (86400, None, 40000), (100.5, None, 50)):
        s = start(T, "plain", opts, warp=warp)
        for ph in PHASES:
            jobs.append((idle, (s, T / warp, ph, f"{ctx.seed}/warp{T}")))
        for k in range(ctx.n(3, 12)):
            jobs.append((active, (s, T / warp, f"{ctx.seed}/{T}/{k}", ctx.n(4, 7) * T / warp)))
    s = start(0, "plain", warp=5000)
    for ph in PHASES:
        jobs.insert(0, (never, (s, ctx.n(5, 30), ph, "0 (for hours)")))
    if ctx.thorough:
        s = start(60, "plain", "")
        for ph in PHASES:
            jobs.insert(0, (idle, (s, 60, ph, "default")))
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(60, 700) > 0 else None, jobs, 48)
    for s in servers:
        s.check_alive()
        ctx.attempt(s.stop)
