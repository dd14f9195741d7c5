"""C14: every connection's resources are released when it ends.  Oracle: descriptors and allocated
bytes after batches of connections that all end the same way."""
import random, socket, threading
from nlib import *
from c12 import raw, partial_handshake, alert, quiet

TECHNIQUE = "runtime monitoring: descriptor and heap accounting over repeated rounds of each way to end a connection (ASan allocator, LeakSanitizer)"
NOTE = ("For each way of ending a connection, descriptors must return to the baseline and the exact number of allocated bytes must not grow "
        "from one batch to the next; LeakSanitizer judges each server at its end.")
RULE = ("one case = one connection ended; distinct = distinct (ending, TLS version, count within the batch class); non-trivial = counted "
        "in a batch whose descriptor and heap balance was taken")
ASSUMPTIONS = ["OpenSSL's session cache for clients without ticket support is bounded by OpenSSL and not exercised"]
AUTH = 'authorize "id" {\n password = "pw"\n commands = ".*"\n}\nauthorize "two" {\n password = "pw2"\n commands = "X"\n}\n'


def endings():
    E = {}

    def add(name, opts="timeout = 60", n=None, slow=0.0, ver=("1.2", "1.3")):
        def deco(f):
            for v in ver:
                E[name + (f", TLS {v}" if v else "")] = (f, v, opts, n, slow)
            return f
        return deco
    NOV = (None,)

    def to_end(e, t=20):
        try:
            e.read_to_end(t)
        except (TLSError, TimeoutError):
            pass
        e.close()

    @add("QUIT")
    def _(srv, v, r):
        s = sess(srv.port, version=v)
        s.push(b"[1500000000] C;x%s\n" % (b"y" * r.choice([1, 300])))
        s.quit()

    @add("QUIT, answered close_notify")
    def _(srv, v, r):
        s = sess(srv.port, version=v)
        s.cmd(b"QUIT")
        s.e.read_to_end(10)
        quiet(s.e.shutdown)
        s.close()

    @add("PING")
    def _(srv, v, r):
        s = sess(srv.port, version=v, moin=False)
        s.cmd(b"PING 1")
        to_end(s.e)

    @add("BAIL")
    def _(srv, v, r):
        s = sess(srv.port, version=v, moin=r.random() < 0.5)
        s.e.send(b"BAIL bye bye\r\n")
        to_end(s.e)

    @add("endless line")
    def _(srv, v, r):
        s = sess(srv.port, version=v, moin=r.random() < 0.5)
        s.e.send(b"x" * 3000)
        to_end(s.e)

    @add("refused commands, then QUIT")
    def _(srv, v, r):
        s = sess(srv.port, b"two", b"pw2", version=v)
        for p in (b"[1] nope\n", b"junk", b"[1500000000] C;\0\n", b"PUSH"):
            s.push(p)
        s.cmd(b"PUSH x")
        s.cmd(b"NOOP")
        s.quit()

    for name, key, ident in (("wrong key", b"wrong", b"id"), ("unknown identity", b"pw", b"nobody"), ("other's key", b"pw2", b"id"),
                             ("long identity", b"pw", b"x" * 127), ("empty identity", b"pw", b"")):
        @add(f"handshake refused: {name}")
        def _(srv, v, r, key=key, ident=ident):
            e = tlspsk.connect(srv.port, ident, key, 10, version=v)
            quiet(lambda: e.handshake(10))
            quiet(lambda: e.read_to_end(5))
            e.close()

    @add("handshake refused: no common cipher", ver=("1.2",))
    def _(srv, v, r):
        e = tlspsk.connect(srv.port, b"id", b"pw", 10, version=v, ciphers="AES128-SHA256")
        quiet(lambda: e.handshake(10))
        e.close()

    for stage in (1, 2):
        for rst in (False, True):
            @add(f"handshake abandoned after flight {stage}{' by reset' if rst else ''}")
            def _(srv, v, r, stage=stage, rst=rst):
                e = partial_handshake(srv, stage, r, v, r.choice([b"pw", b"wrong"]))
                e.close(rst=rst)

    @add("alert during the handshake")
    def _(srv, v, r):
        e = partial_handshake(srv, r.choice([1, 2]), r, v)
        quiet(lambda: e.send_raw(alert(*r.choice([(1, 0), (2, 40), (2, 80), (1, 90)]))))
        quiet(lambda: e.recv_raw(0.01))
        e.close()

    @add("no TLS at all", ver=NOV)
    def _(srv, v, r):
        raw(srv, r.choice([b"", b"x", b"GET / HTTP/1.0\r\n\r\n", b"\x16\x03\x01\x00\x05abc"]), r.choice(["close", "half"]))

    @add("reset at once", n=150, ver=NOV)
    def _(srv, v, r):
        raw(srv, b"", "rst")

    @add("reset at once while the server is busy", n=150, ver=NOV)
    def _(srv, v, r):
        cs = []
        for _ in range(12):
            c = socket.socket()
            c.setblocking(False)
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            try:
                c.connect(("127.0.0.1", srv.port))
            except BlockingIOError:
                pass
            cs.append(c)
        for c in cs:
            c.close()

    for how in ("close", "reset", "close_notify"):
        for phase in ("H", "Hline", "C", "line", "announced", "payload", "unread"):
            @add(f"{how} in phase {phase}", ver=("1.3",) if how != "reset" else ("1.2",))
            def _(srv, v, r, how=how, phase=phase):
                s = sess(srv.port, version=v, moin=phase[0] != "H")
                if phase == "Hline":
                    s.e.send(b"MOI")
                if phase == "line":
                    s.e.send(b"PUS")
                if phase == "announced":
                    s.cmd(b"PUSH 100")
                if phase == "payload":
                    s.cmd(b"PUSH 10000")
                    s.e.send(b"[15" * 1000)
                if phase == "unread":
                    s.e.send(b"NOOP\r\n" * 50)
                if how == "close_notify":
                    quiet(s.e.shutdown)
                    quiet(lambda: s.e.read_to_end(5))
                s.e.close(rst=how == "reset")

    @add("resumption attempt")
    def _(srv, v, r):
        s = sess(srv.port, version=v)
        s.cmd(b"NOOP")
        ses = tlspsk.get_session(s.e)
        s.quit()
        try:
            e = tlspsk.connect(srv.port, b"id", b"pw", 10, version=v, session=ses)
            quiet(lambda: (e.handshake(10), e.send(b"MOIN 1 abc\r\n"), e.read_to_end(5)))
            e.close()
        finally:
            tlspsk.free_session(ses)

    @add("large payload, then reset")
    def _(srv, v, r):
        s = sess(srv.port, version=v)
        l = b"[1500000000] C;%s\n" % (b"y" * 9000)
        s.push(l)
        s.e.close(rst=True)

    T = "timeout = 1"
    for phase in ("tcp", "hello", "flight", "H", "line", "payload", "quit", "unread"):
        @add(f"timeout in phase {phase}", T, 24, 3.0, ver=("1.3",))
        def _(srv, v, r, phase=phase):
            if phase == "tcp":
                return raw(srv, b"", "keep")
            if phase == "hello":
                return raw(srv, b"\x16\x03\x01", "keep")
            if phase == "flight":
                return partial_handshake(srv, 1, r, v)
            if phase == "unread":
                e = tlspsk.session(srv.port, b"id", b"pw", 20, version=v, rcvbuf=2048)
                e.send(b"MOIN 1 abcd\r\n")
                for _ in range(8):
                    quiet(lambda: e.send_raw(e.encrypt(b"z\n" * 1000), 1))
                return e
            s = sess(srv.port, version=v, moin=phase != "H")
            if phase == "line":
                s.e.send(b"PUS")
            if phase == "payload":
                s.cmd(b"PUSH 50")
                s.e.send(b"[")
            if phase == "quit":
                s.cmd(b"QUIT")
            return s.e
    return E


def scenario(ctx, item):
    name, variant = item
    f, v, opts, n, slow = endings()[name]
    n = n or ctx.n(40, 150)
    r = random.Random(f"{ctx.seed}/{name}")
    with Server(ctx, auth=AUTH, variant=variant, opts=opts, loglevel=0, mon=True, mem=True) as srv:
        sess(srv.port).quit()

        def settle():
            ok = wait_for(lambda: len(srv.sockets()) <= base, 15 + slow)
            srv.check_alive()
            if not ok:
                raise Violation("descriptors of ended connections stay open", f"{len(srv.sockets())} sockets instead of {base} after: {name}", soft=True)
            return srv.allocated()
        wait_for(lambda: len(srv.sockets()) <= 1, 10)
        base = len(srv.sockets())
        nfd = None
        m = []
        for batch in range(4):
            held = []
            for _ in range(n if batch else max(5, n // 4)):
                held.append(f(srv, v, r))
                srv.check_alive()
            if slow:
                time.sleep(slow)
            for h in held:
                if h is not None:
                    h.close()
            m.append(settle())
            fds = len(srv.fds())
            if nfd is None:
                nfd = fds
            elif fds > nfd:
                time.sleep(0.5)
                if len(srv.fds()) > nfd:
                    raise Violation("descriptors of ended connections stay open", f"{nfd} -> {len(srv.fds())} after: {name}\n{srv.fds()}", soft=True)
            for k in range(n):
                ctx.case((name, k * 8 // n))
        d = [b - a for a, b in zip(m[1:], m[2:])]
        if min(d) > 4 * n:
            raise Violation("memory of ended connections is not released", f"{name}: allocated bytes after each batch of {n}: {m}")
        ctx.count("connections", 4 * n)
        ctx.count("endings")
        if len(ctx.samples) < 12:
            ctx.samples.append({"ending": name, "allocated after batches": m, "descriptors": nfd})


def at_shutdown(ctx, variant):
    """The server stops while connections in all phases are open."""
    with Server(ctx, auth=AUTH, variant=variant, opts="timeout = 60", loglevel=0) as srv:
        r = random.Random(ctx.seed)
        held = [raw(srv, b"", "keep"), raw(srv, b"\x16\x03\x01", "keep"), partial_handshake(srv, 2, r, "1.2"), partial_handshake(srv, 2, r, "1.3")]
        for moin in (False, True):
            s = sess(srv.port, moin=moin)
            s.e.send(b"PU")
            held.append(s)
        s = sess(srv.port)
        s.cmd(b"PUSH 100")
        s.e.send(b"[1")
        held.append(s)
        s = sess(srv.port)
        s.cmd(b"QUIT")
        held.append(s)
        time.sleep(0.05)
        ctx.case(("shutdown", variant))
    for h in held:
        h.close()


def exhausted(ctx, variant):
    """Running out of descriptors leaves none behind."""
    with Server(ctx, auth=AUTH, variant=variant, opts="timeout = 60", loglevel=0, nofile=40, mon=True, mem=True) as srv:
        sess(srv.port).quit()
        wait_for(lambda: len(srv.sockets()) <= 1, 10)
        base, m = len(srv.sockets()), []
        for k in range(5):
            held = [raw(srv, b"", "keep") for _ in range(60)]
            time.sleep(0.1)
            for h in held:
                h.close()
            if not wait_for(lambda: len(srv.sockets()) <= base, 15):
                raise Violation("descriptors of ended connections stay open", f"after running out of them: {srv.fds()}", soft=True)
            m.append(srv.allocated())
            ctx.case(("exhausted", variant, k))
        d = [b - a for a, b in zip(m[1:], m[2:])]
        if min(d) > 200:
            raise Violation("memory of ended connections is not released", f"running out of descriptors: {m}")


def run(ctx):
    names = list(endings())
    random.Random(ctx.seed).shuffle(names)
    names.sort(key=lambda n: not n.startswith("timeout"))
    ctx.pmap(lambda a: scenario(ctx, a), [(n, "asan") for n in names], 16)
    ctx.pmap(lambda v: at_shutdown(ctx, v), ["asan"], 1)
    ctx.pmap(lambda v: exhausted(ctx, v), ["asan"], 1)
    if ctx.thorough:
        ctx.pmap(lambda a: scenario(ctx, a), [(n, "asan-noaio") for n in names], 16)
