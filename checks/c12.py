"""C12: no client can disturb the server or other clients' sessions.  Oracle: witness sessions in
the middle of a line, of a payload and of a dialogue go on undisturbed after each attack, and a
new client is served promptly; all submitted commands arrive."""
import random, socket, threading
from nlib import *

TECHNIQUE = "runtime monitoring: witness sessions held open in every protocol phase during scripted and random attacks"
NOTE = ("Every attack runs against a server with witnesses in four phases, whose next answers must be right and come within seconds; "
        "attacks are scripted for each phase plus random byte-level and schedule-level mixes.")
RULE = ("one case = one attack survived; distinct = distinct (attack, variant, phase); non-trivial = witnesses were in the middle of "
        "a line, a payload and a dialogue while it happened")
ASSUMPTIONS = ["memory taken by responses that a client never reads is not bounded by the server and not judged here"]
AUTH = ('authorize "id" {\n password = "pw"\n commands = ".*"\n}\nauthorize "wit" {\n password = "pw"\n commands = ".*"\n}\n'
        'authorize "%s%n%d" {\n password = "pw"\n commands = ".*"\n}\n')
LATENCY = 10.0


class Witness:
    def __init__(self, srv, phase):
        self.srv, self.phase, self.n = srv, phase, 0
        self.s = sess(srv.port, b"wit", b"pw", moin=phase != "H")
        self.begin()

    def begin(self):
        s = self.s
        self.n += 1
        if self.phase == "line":
            s.e.send(b"NO")
        elif self.phase == "payload":
            self.l = b"[1500000000] C;w%d;%s\n" % (self.n, b"v" * 3000)
            if s.cmd(b"PUSH %d" % len(self.l)) != b"OKAY\r\n":
                raise Violation("a witness session was disturbed", repr(s.log[-1]))
            s.e.send(self.l[:1500])

    def go_on(self, sent):
        s = self.s
        if self.phase == "line":
            s.e.send(b"OP\r\n")
        elif self.phase == "payload":
            s.e.send(self.l[1500:])
            sent.append(self.l)
        elif self.phase == "dialogue":
            s.e.send(b"NOOP\r\n")
        elif self.phase == "H":
            s.e.send(b"HELLO\r\n")
        t = time.monotonic()
        a = s.e.readline(30)
        if self.phase == "H" and not a.startswith(b"FAIL ") or self.phase != "H" and a != b"OKAY\r\n":
            raise Violation("a witness session was disturbed", f"{self.phase}: {a!r}")
        if time.monotonic() - t > LATENCY:
            raise Violation("another session was held up", f"{self.phase}: {time.monotonic() - t:.1f} s", soft=True)
        self.begin()


def raw(srv, data=b"", how="close", wait=0.0):
    c = socket.create_connection(("127.0.0.1", srv.port), 10)
    try:
        if data:
            c.sendall(data)
    except OSError:
        pass
    if wait:
        time.sleep(wait)
    if how == "rst":
        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    if how == "half":
        c.settimeout(1)
        try:
            c.shutdown(socket.SHUT_WR)
            while c.recv(4096):
                pass
        except OSError:
            pass
    if how == "keep":
        return c
    c.close()


def alert(level, desc, ver=b"\x03\x03"):
    return b"\x15" + ver + b"\x00\x02" + bytes([level, desc])


def partial_handshake(srv, stage, r, version, key=b"pw", ident=b"id"):
    """Stop after `stage` flights; -> endpoint"""
    e = tlspsk.connect(srv.port, ident, key, 10, version=version)
    for k in range(stage):
        try:
            done = e.step()
        except TLSError:
            break
        e.send_raw(e.pending_out())
        if done:
            break
        if k < stage - 1:
            try:
                d = e.recv_raw(5)
            except (TimeoutError, Closed):
                break
            if not d:
                break
            e.feed(d)
    return e


def quiet(fn):
    try:
        fn()
    except (Closed, TLSError, TimeoutError, OSError):
        pass


def attacks(ctx, r):
    A = {}

    def add(name):
        def deco(f):
            A[name] = f
            return f
        return deco
    hello = {}

    def client_hello(srv, v):
        if v not in hello:
            e = tlspsk.Endpoint(None, "client", b"id", b"pw", version=v)
            e.step()
            hello[v] = e.pending_out()
        return hello[v]

    @add("garbage instead of TLS")
    def _(srv):
        for how in ("close", "rst", "half"):
            raw(srv, bytes(r.getrandbits(8) for _ in range(r.choice([1, 4, 5, 11, 300, 20000]))), how)
            raw(srv, b"GET / HTTP/1.0\r\n\r\n", how)
            raw(srv, b"MOIN 1 abc\r\nPUSH 20\r\n", how)
            raw(srv, b"\x16\x03\x01\xff\xff" + b"x" * 100, how)

    @add("connect and leave")
    def _(srv):
        for how in ("close", "rst", "half") * 8:
            raw(srv, b"", how)

    for v in ("1.2", "1.3"):
        @add(f"cut-off ClientHello {v}")
        def _(srv, v=v):
            h = client_hello(srv, v)
            for k in {1, 3, 5, 6, len(h) // 2, len(h) - 1, r.randrange(1, len(h))}:
                for how in ("close", "rst", "half"):
                    raw(srv, h[:k], how, 0.002)

        @add(f"damaged ClientHello {v}")
        def _(srv, v=v):
            h = client_hello(srv, v)
            for _i in range(12):
                b = bytearray(h)
                for _j in range(r.choice([1, 1, 3])):
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                raw(srv, bytes(b), r.choice(["close", "half"]), 0.002)

        @add(f"alert during handshake {v}")
        def _(srv, v=v):
            h = client_hello(srv, v)
            for lv, d in ((1, 0), (2, 0), (2, 40), (1, 90), (2, 80), (1, 41), (3, 3)):
                raw(srv, alert(lv, d), "half", 0.002)
                raw(srv, h + alert(lv, d), "half", 0.002)
                raw(srv, h + alert(lv, d), "rst", 0.002)
                e = partial_handshake(srv, 2, r, v)
                quiet(lambda: e.send_raw(alert(lv, d)))
                time.sleep(0.002)
                e.close(rst=r.random() < 0.5)

        # one connection each: nothing after it may wipe out its traces
        for lv, d in ((1, 0), (2, 40), (1, 90), (1, 41)):
            for at in (0, 1, 2):
                @add(f"alert {lv}/{d} at handshake step {at}, TLS {v}")
                def _(srv, v=v, lv=lv, d=d, at=at):
                    if at < 2:
                        raw(srv, client_hello(srv, v) * at + alert(lv, d), "half", 0.01)
                    else:
                        e = partial_handshake(srv, 2, r, v)
                        quiet(lambda: e.send_raw(alert(lv, d)))
                        time.sleep(0.01)
                        e.close()

        @add(f"abandoned handshake {v}")
        def _(srv, v=v):
            for stage in (1, 2, 3):
                for rst in (False, True):
                    for key in (b"pw", b"nope"):
                        e = partial_handshake(srv, stage, r, v, key)
                        e.close(rst=rst)

        @add(f"wrong credentials {v}")
        def _(srv, v=v):
            for ident in (b"id", b"nobody", b"", b"%s%n%d", b"x" * 127, b"\x01\xff", b"a b"):
                def f():
                    e = tlspsk.connect(srv.port, ident, b"wrong", 10, version=v)
                    try:
                        e.handshake(10)
                        e.send(b"MOIN 1 abcd\r\n")
                        e.read_to_end(5)
                    finally:
                        e.close(rst=r.random() < 0.5)
                quiet(f)

        @add(f"garbage after the handshake {v}")
        def _(srv, v=v):
            for g in (b"\x17\x03\x03\x00\x20" + b"g" * 32, b"\x17\x03\x03\xff\xff" + b"g" * 100, b"\x16\x03\x03\x00\x04\x00\x00\x00\x00",
                      b"\x14\x03\x03\x00\x01\x01", alert(2, 20), alert(1, 100), alert(1, 0), b"junk" * 20):
                s = sess(srv.port, version=v)
                if r.random() < 0.5:
                    quiet(lambda: s.cmd(b"PUSH 100"))
                quiet(lambda: s.e.send_raw(g))
                quiet(lambda: s.e.read_to_end(0.05))
                s.e.close(rst=r.random() < 0.5)

        @add(f"disconnect in every phase {v}")
        def _(srv, v=v):
            for phase in ("none", "H", "Hline", "C", "line", "announced", "payload", "unread", "quit", "push-unread", "bail"):
                for how in ("close", "rst", "notify", "half"):
                    s = sess(srv.port, version=v, moin=not phase.startswith(("none", "H")))
                    e = s.e
                    try:
                        if phase == "Hline":
                            e.send(b"MOI")
                        if phase == "line":
                            e.send(b"PUS")
                        if phase == "announced":
                            s.cmd(b"PUSH 100")
                        if phase == "payload":
                            s.cmd(b"PUSH 100")
                            e.send(b"[15")
                        if phase == "unread":
                            e.send(b"NOOP\r\n" * 200)
                        if phase == "push-unread":
                            s.cmd(b"PUSH 5")
                            e.send(b"1234\nNOOP\r\nNOOP\r\n")
                        if phase == "quit":
                            e.send(b"QUIT\r\n")
                        if phase == "bail":
                            e.send(b"BAIL out\r\n")
                        if how == "notify":
                            e.shutdown()
                        if how == "half":
                            e.sock.shutdown(socket.SHUT_WR)
                    except (Closed, TimeoutError, OSError):
                        pass
                    e.close(rst=how == "rst")

        @add(f"endless line {v}")
        def _(srv, v=v):
            for state in (False, True):
                s = sess(srv.port, version=v, moin=state)
                quiet(lambda: s.e.send(b"A" * 100000))
                s.e.close(rst=r.random() < 0.5)

        @add(f"responses never read {v}")
        def _(srv, v=v):
            e = tlspsk.session(srv.port, b"id", b"pw", 20, version=v, rcvbuf=2048)
            e.send(b"MOIN 1 abcd\r\n")
            blk = b"z\n" * 1000
            for _i in range(130):
                try:
                    e.send_raw(e.encrypt(blk), 5)
                except (Closed, TimeoutError):
                    break
            keep.append(e)

    for v in ("1.2", "1.3"):
        @add(f"resumed TLS sessions {v}")
        def _(srv, v=v):
            def f():
                e = tlspsk.session(srv.port, b"id", b"pw", 20, version=v, minver=v)
                s = Sess(e).moin()
                s.cmd(b"NOOP")
                ses = tlspsk.get_session(e)
                s.quit()
                for ident, key, ver in ((b"id", b"pw", v), (b"id", b"wrong", v), (b"other", b"pw", v), (b"id", b"pw", "1.3")) * 2:
                    if ses is None:
                        break
                    e = tlspsk.connect(srv.port, ident, key, version=ver, session=ses)
                    def g():
                        e.handshake(5)
                        e.send(b"MOIN 1 abcd\r\nNOOP\r\nQUIT\r\n")
                        e.read_to_end(1)
                    quiet(g)
                    e.close(rst=r.random() < 0.3)
                tlspsk.free_session(ses)
            quiet(f)

    @add("long and odd identities")
    def _(srv):
        for ident in (b"x" * 120, b"y" * 127, b"z" * 128, b"x" * 250, b"*", b"id ", b"\xc3\xa4", b"a\tb", b"\x7f"):
            for v in ("1.2", "1.3"):
                def f():
                    e = tlspsk.session(srv.port, ident, b"pw", 20, version=v)
                    s = Sess(e)
                    s.cmd(b"MOIN 1 " + b"i" * 900)
                    s.cmd(b"NOOP")
                    s.quit()
                quiet(f)

    @add("key updates")
    def _(srv):
        s = sess(srv.port, version="1.3")
        for k in range(200):
            tlspsk.SSL_key_update(s.e.ssl, k % 2)
            s.e.send(b"N" if k % 3 == 0 else b"")  if k % 3 == 0 else s.e.send_raw(s.e.pending_out())
        s.e.close()

    @add("renegotiation")
    def _(srv):
        s = sess(srv.port, version="1.2")
        tlspsk.SSL_renegotiate(s.e.ssl)
        tlspsk.SSL_do_handshake(s.e.ssl)
        quiet(lambda: s.e.send_raw(s.e.pending_out()))
        quiet(lambda: s.e.read_to_end(0.2))
        s.e.close()

    @add("idle connections in every phase")
    def _(srv):
        for k in range(15):
            keep.append(raw(srv, b"", "keep"))
            keep.append(raw(srv, client_hello(srv, "1.2")[:50], "keep"))
            keep.append(partial_handshake(srv, 2, r, r.choice(["1.2", "1.3"])))
            s = sess(srv.port, moin=k % 2)
            if k % 2:
                s.cmd(b"PUSH 1000")
                s.e.send(b"[")
            keep.append(s.e)

    @add("flood of requests")
    def _(srv):
        s = sess(srv.port)
        def f():
            for _i in range(60):
                s.e.send(b"NOOP\r\n" * 500)
                for _j in range(500):
                    s.line()
        quiet(f)
        s.close()

    @add("flood of connections")
    def _(srv):
        def f():
            for _i in range(40):
                raw(srv, client_hello(srv, "1.3")[:r.randint(0, 200)], r.choice(["close", "rst"]))
        ts = [threading.Thread(target=f, daemon=True) for _i in range(4)]
        [t.start() for t in ts]
        [t.join() for t in ts]

    @add("format strings everywhere")
    def _(srv):
        s = sess(srv.port, identity=b"%s%n%d", moin=False)
        s.cmd(b"%s%s%n%n MOIN")
        s.cmd(b"MOIN 1 %s%n%x%d%99999d")
        s.cmd(b"%n%n%s")
        l = b"[1500000000] C;%s%n%d%99999s\n"
        s.push(l)
        sent_extra.append(l)
        s.push(b"no%s%n\n")
        s.cmd(b"BAIL", b"") if False else s.e.send(b"BAIL %s%n%s\r\n")
        s.e.close()

    @add("refused commands")
    def _(srv):
        s = sess(srv.port)
        for p in (b"\0" * 50, b"\n" * 20, b"[1] x", b"[" * 100 + b"\n", b"x" * 16384, b"[99999999999999999999999999] C;x\n"[:5] + b"\n"):
            s.push(p)
        s.push(b"q" * 16384)
        s.close()

    @add("announced but never sent")
    def _(srv):
        for n in (1, 16384):
            s = sess(srv.port)
            s.cmd(b"PUSH %d" % n)
            keep.append(s.e)

    @add("slow bytes")
    def _(srv):
        es = [raw(srv, b"", "keep") for _i in range(5)]
        h = client_hello(srv, "1.3")
        for k in range(60):
            for c in es:
                c.send(h[k:k + 1])
            time.sleep(0.001)
        keep.extend(es)

    @add("urgent data")
    def _(srv):
        c = raw(srv, b"", "keep")
        quiet(lambda: c.send(b"!", socket.MSG_OOB))
        s = sess(srv.port)
        quiet(lambda: s.e.sock.send(b"!", socket.MSG_OOB))
        time.sleep(0.01)
        c.close()
        s.close()

    keep, sent_extra = [], []
    return A, keep, sent_extra


def round_(ctx, arg):
    seed, variant, order = arg
    r = random.Random(f"{ctx.seed}/{seed}")
    with Server(ctx, auth=AUTH, variant=variant, loglevel=r.choice([1, 5]), opts="timeout = 120\nmax_command_size = 16384") as srv:
        A, keep, extra = attacks(ctx, r)
        wit = [Witness(srv, p) for p in ("H", "line", "payload", "dialogue")]
        sent = []
        names = [n for k, n in enumerate(A) if order is None or k % order[1] == order[0]]
        r.shuffle(names)
        if ctx.thorough:
            names = names * 2
        for name in names:
            if ctx.left(80, 900) < 0:
                break
            try:
                A[name](srv)
            except (Closed, TLSError, TimeoutError, OSError) as e:
                ctx.count("attack ended early")
                if os.environ.get("VERIF_DEBUG"):
                    print(name, repr(e))
            srv.check_alive(f"the server died during: {name}")
            try:
                for w in wit:
                    w.go_on(sent)
                t = time.monotonic()
                s = sess(srv.port, b"wit", b"pw")
                l = b"[1500000000] C;new;%d\n" % len(sent)
                if s.push(l) != b"OKAY\r\n":
                    raise Violation("a new client was refused", f"after {name}: {s.log[-1]!r}")
                sent.append(l)
                s.quit()
                if time.monotonic() - t > LATENCY:
                    raise Violation("a new client was not served promptly", f"{time.monotonic() - t:.1f} s after {name}", soft=True)
            except Violation as v:
                v.detail = f"after {name}: {v.detail}\n{srv.stderr()[-600:].decode('latin-1')}"
                raise
            except (Closed, TLSError, ConnectionError) as e:
                srv.check_alive(f"the server died during: {name}")
                raise Violation("a session of another client was broken", f"by {name}: {type(e).__name__} {e}\n{srv.stderr()[-600:].decode('latin-1')}")
            except TimeoutError as e:
                srv.check_alive(f"the server died during: {name}")
                raise Violation("another client got no answer", f"after {name}: {e}", soft=True)
            ctx.case((name, variant, seed))
            ctx.count("attacks")
        for c in keep:
            c.close()
        sent += extra
        mine = lambda d: [l for l in expand(split_stream(d)[0], consume=False)[0] if l.startswith(b"[1500000000] C;")]
        if not srv.wait_fifo(lambda d: len(mine(d)) >= len(sent)):
            raise Violation("commands of undisturbed sessions were lost", f"{len(sent)} acknowledged, {len(mine(srv.fifo.snapshot()))} delivered", soft=True)
        if sorted(mine(srv.fifo.snapshot())) != sorted(sent):
            raise Violation("delivered commands differ from those acknowledged", "")
        for w in wit:
            w.s.close()


def exhausted(ctx, variant):
    """All descriptors used up: open sessions go on, and once there is room, new ones are served."""
    with Server(ctx, auth=AUTH, variant=variant, nofile=40, loglevel=0, opts="timeout = 120") as srv:
        wit = [Witness(srv, p) for p in ("H", "line", "payload", "dialogue")]
        sent = []
        conns = [raw(srv, b"", "keep") for _ in range(60)]
        time.sleep(0.2)
        for w in wit:
            w.go_on(sent)
        srv.check_alive("the server died when it ran out of descriptors")
        for n in range(6):      # connections come and go, and none can be accepted
            conns.append(raw(srv, b"", "keep"))
            time.sleep(0.05 + 0.1 * n)
            for w in wit:
                w.go_on(sent)
            # in the middle of a TLS record there is nothing to read yet: no error either
            w = wit[3]
            data = w.s.e.encrypt(b"NOOP\r\n")
            for k in range(0, len(data), 11):
                w.s.e.send_raw(data[k:k + 11])
                time.sleep(0.02)
            try:
                a = w.s.e.readline(30)
            except (Closed, TLSError) as x:
                a = x
            if a != b"OKAY\r\n":
                raise Violation("a witness session was disturbed", f"record in pieces while no descriptor was available: {a!r}")
        for c in conns:
            c.close()
        s = sess(srv.port, b"wit", b"pw", timeout=30)
        s.push(b"[1500000000] C;x\n")
        s.quit()
        for w in wit:
            w.go_on(sent)
            w.s.close()
        ctx.case(("descriptors exhausted", variant))
        ctx.count("attacks")


def run(ctx):
    ctx.pmap(lambda a: round_(ctx, a), [(k, ("asan", "plain", "plain", "asan")[k % 4], (k % 4, 4) if not ctx.thorough else None)
                                        for k in range(ctx.n(8, 24))], 8)
    ctx.pmap(lambda v: exhausted(ctx, v), ["plain", "asan"], 2)
