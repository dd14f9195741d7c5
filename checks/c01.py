"""C01: who gets a session.  Oracle: a table of identity -> password computed from the
configuration the check itself wrote; every (identity, key, TLS version) attempt is run
against the real server and its outcome (protocol reply, pipe contents) compared."""
import os, socket, time
import nlib, tlspsk
from nlib import *

TECHNIQUE = 'runtime monitoring: TLS-PSK handshake oracle over random configurations and near-miss credentials'
NOTE = 'Every session granted or refused by the real server (ASan/UBSan build) is compared with an independent model of section lookup and key fallback; sampled configurations and credentials.'
RULE = ("one case = one connection attempt; distinct = distinct (configuration, identity, key, TLS version, shape); "
        "all are non-trivial since each is judged against the reference table in both directions")
ASSUMPTIONS = ["OpenSSL's PSK handshake itself is sound"]

# bytes that do not disturb libConfuse
PW = b"ABCdef0123456789!%&/()=?*+~-_.:,;<>|^@ "


ODD = b"\t\x01\x0b\x0c\x1b\x7f\x80\xa0\xff\xe4'#{}[]`\\\""


def pw(r, n):
    if n > 1 and r.random() < 0.3:
        # any byte but NUL and line breaks, at any place
        x = bytearray(r.choice(PW[:-1]) for _ in range(n))
        for _ in range(r.choice([1, 1, 2, 5])):
            x[r.randrange(n)] = r.choice([9, 32, r.choice(ODD), r.choice(ODD), r.choice(PW)])
        return bytes(x)
    return bytes(r.choice(PW[:-1]) for _ in range(n))


LENGTHS = [1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 100, 127, 128, 129, 200, 254, 255, 256]


def length(r):
    return r.choice(LENGTHS) if r.random() < 0.5 else r.randint(1, 60)


NEAR = [lambda n, x=x: n + x for x in ("@host", ".x", ".example.org", "/x", ":x", "#x", "%x", "$", "*", " ", "\t", "\n", "\r\n", ".", ",", ";x", "\"",
                                       "\\", "=x", "!", "-1", "_", "\xff", "\x01", "0", "?")]
NEAR += [lambda n, x=x: x + n for x in (" ", "\t", "@", "host/", "DOM\\", "*", "#", ".", "0", "+", "-", "\"", "\xff")]
NEAR += [str.upper, str.capitalize, str.swapcase, lambda n: n[:-1], lambda n: n[1:], lambda n: n + n, lambda n: n.split(".")[0].split(" ")[0],
         lambda n: n[::-1], lambda n: '"' + n + '"', lambda n: n.replace("e", "?"), lambda n: n[:1] + "*", lambda n: ".*", lambda n: "[" + n + "]"]


def config(r, kind):
    """-> (text of auth part, reference: identity -> key or None)"""
    secs, glob = {}, None
    if kind in ("global", "mixed", "many"):
        glob = pw(r, r.randint(6, 24))
    names = ["alice", "Alice", "alic", "alicee", "bob", "carol smith", "d\xfcrer".encode("latin-1").decode("latin-1"),
             "web-1.example.org", "x", "100%s", "a" * 100]
    # names of which only the far end differs
    for n in r.sample([119, 126, 127, 128, 129, 190, 199], 3):
        names += ["n" * n, "n" * n + "x", "n" * n + "y"]
    if kind == "many":
        names += [f"host{i}" for i in range(400)] + [f"{i}host" for i in range(50)]
    own = {}
    for n in names:
        if kind == "global":
            own[n] = None
        elif kind in ("mixed", "many"):
            own[n] = pw(r, length(r)) if r.random() < 0.6 else None
        else:
            own[n] = pw(r, length(r))
    # an empty password opens the section to nobody, it doesn't fall back to the global one
    own["closed"] = b""
    if kind in ("star", "mixed", "many"):
        own["*"] = pw(r, 16) if kind != "many" else None
    order = list(own)
    r.shuffle(order)
    t = ""
    gl = f"password = {q(glob)}\n" if glob else ""
    body = ""
    for n in order:
        p = own[n]
        body += f"authorize {q(n)} {{\n" + (f"  password = {q(p)}\n" if p is not None else "") + "  commands = \".*\"\n}\n"
    # the global setting may come before or after the sections
    t = gl + body if r.random() < 0.5 else body + gl
    eff = {n: (p if p is not None else glob) for n, p in own.items()}

    def ref(ident):
        if ident in eff:
            return eff[ident]
        return eff.get("*")
    return t, ref, eff, glob


def keys_for(r, want, eff, glob, ident):
    ks = {}
    if want:
        ks["right"] = want
        ks["truncated"] = want[:-1]
        ks["extended"] = want + b"x"
        ks["extended0"] = want + b"\0"
        ks["doubled"] = want + want
        ks["case"] = want.swapcase()
        ks["firstbyte"] = bytes([want[0] ^ 1]) + want[1:]
        ks["lastbyte"] = want[:-1] + bytes([want[-1] ^ 1])
        ks["half"] = want[: len(want) // 2]
        for b in (8, 16, 32, 64, 128, 255):
            if len(want) > b:
                ks["first %d" % b] = want[:b]
                ks["other after %d" % b] = want[:b] + bytes([want[b] ^ 1]) + want[b + 1:]
    others = [(n, k) for n, k in eff.items() if k != want]
    r.shuffle(others)
    for n, k in others[:3]:
        ks["of " + n] = k
    if "*" in eff:
        ks["of *"] = eff["*"]
    if glob:
        ks["global"] = glob
    ks["random"] = pw(r, 12)
    ks["id as key"] = ident.encode("latin-1")
    ks["zeros"] = b"\0" * 16
    return {n: k for n, k in ks.items() if k}


def attempt(ctx, srv, ident, key, ver, should, tag):
    """One connection; -> got a session"""
    mark = b"m%d" % ctx.next()
    line = b"[%d] MARK;%s;%s\n" % (now(), mark, tag.encode("latin-1", "replace").replace(b";", b","))
    ep = tlspsk.connect(srv.port, ident.encode("latin-1"), key, version=ver, minver=ver)
    got = b""
    try:
        try:
            ep.handshake(20)
            ok = True
        except (TLSError, Closed):
            ok = False
        if ok:
            # TLS 1.3: the server may still refuse; a session exists once it answers
            s = Sess(ep)
            try:
                r = s.cmd(b"MOIN 1 abcdef")
                got += r
                r2 = s.push(line)
                got += r2
                r3, _ = s.quit()
                got += r3
            except (Closed, TLSError):
                pass
            got += ep.plain
        else:
            got += ep.plain
    finally:
        ep.close()
    d = f"identity {ident!r}, key {key!r}, TLS {ver}, {tag}"
    if should:
        if got != b"MOIN 1\r\nOKAY\r\nOKAY\r\n":
            raise Violation("the configured key did not give a working session", f"{d}: got {got!r}")
        if not srv.wait_fifo(lambda b: line in b, 10):
            raise Violation("the command of an authenticated client did not arrive", d, soft=True)
    else:
        if got:
            raise Violation("a client without the configured key got a protocol reply", f"{d}: got {got!r}")
        ctx.denied.append(line)
    return True


def raw_attempts(ctx, srv):
    """Clients that are not PSK clients at all."""
    import ssl
    line = b"[1] MARK;plain\n"
    for i, data in enumerate([b"MOIN 1 abcdef\r\nPUSH 15\r\n" + line + b"QUIT\r\n", b"PING 1\r\n", line * 3,
                              b"\x16\x03\x01\x00\x05hello", os.urandom(500), b"GET / HTTP/1.0\r\n\r\n"]):
        s = socket.create_connection(("127.0.0.1", srv.port))
        s.settimeout(5)
        s.sendall(data)
        got = b""
        try:
            s.shutdown(socket.SHUT_WR)
            while True:
                b = s.recv(4096)
                if not b:
                    break
                got += b
        except OSError:
            pass
        s.close()
        if any(w in got for w in (b"MOIN", b"OKAY", b"FAIL", b"PONG", b"BAIL")):
            raise Violation("plaintext client got a protocol reply", f"{data!r} -> {got!r}")
        ctx.case(("plain", i, srv.tag))
    for kw in ({}, {"anon": True}):
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
        if kw:
            c.set_ciphers("ALL:aNULL:@SECLEVEL=0")
        s = socket.create_connection(("127.0.0.1", srv.port))
        s.settimeout(5)
        got = b""
        try:
            with c.wrap_socket(s) as t:
                t.sendall(b"MOIN 1 abcdef\r\nPING 1\r\n")
                got = t.recv(100)
        except OSError:
            pass
        if got:
            raise Violation("a TLS client without pre-shared key got a reply", repr(got))
        ctx.case(("nopsk", bool(kw), srv.tag))


def resumption(ctx):
    """A TLS session obtained earlier must not stand in for the key: same server with a
    changed key after a reload, another server, or the same session with another identity."""
    r = ctx.rng
    for ver in ("1.2", "1.3"):
        k1, k2 = pw(r, 12), pw(r, 12)
        auth = lambda k: f'authorize "a" {{ password = {q(k)}\n commands = ".*" }}\nauthorize "b" {{ password = {q(k2)}\n commands = ".*" }}\n'
        with Server(ctx, auth=auth(k1)) as s1, Server(ctx, auth=auth(k1[::-1] + b"z")) as s2:
            s1.tag = s2.tag = "resume"
            got = []
            ep = tlspsk.session(s1.port, b"a", k1, version=ver, minver=ver)
            x = Sess(ep).moin()
            x.cmd(b"NOOP")
            ses = tlspsk.get_session(ep)
            x.quit()
            if ses is None:
                ctx.count("no session to resume")
                continue
            for port, ident, key, what in ((s2.port, b"a", k1, "other server"), (s1.port, b"b", b"wrong", "other identity"),
                                           (s1.port, b"a", b"wrong", "wrong key"), (s1.port, b"zz", b"wrong", "unknown identity")):
                e = tlspsk.connect(port, ident, key, version=ver, minver=ver, session=ses)
                reply = b""
                try:
                    e.handshake(10)
                    e.send(b"MOIN 1 abcdef\r\nPUSH 12\r\n[1] RESUMED\n")
                    reply = e.readline(3)
                except (Closed, TLSError, TimeoutError):
                    pass
                e.close()
                ctx.case(("resume", ver, what))
                if reply and ident != b"a":
                    raise Violation("a resumed session gave a protocol session without its key",
                                    f"TLS {ver}, {what}: {reply!r}")
                if reply and port == s2.port:
                    raise Violation("a session of another server was accepted", f"TLS {ver}: {reply!r}")
                ctx.count("resumption attempts refused" if not reply else "resumption answered")
            tlspsk.free_session(ses)


def run(ctx):
    ctx.seq = 0

    def nxt():
        ctx.seq += 1
        return ctx.seq
    ctx.next = nxt
    ctx.denied = []
    r = ctx.rng
    kinds = ["own", "global", "star", "mixed", "many"] * ctx.n(1, 8)

    def one_config(arg):
        i, kind = arg
        import random
        r = random.Random(f"{ctx.seed}/{i}/{kind}")
        text, ref, eff, glob = config(r, kind)
        ctx.denied = []
        with Server(ctx, auth=text, variant="plain" if i % 2 else "asan", loglevel=r.choice([0, 3, 5])) as srv:
            srv.tag = f"{i}{kind}"
            ids = [n for n in eff if not n.startswith("host") and not n.endswith("host")]
            hosts = [n for n in eff if n not in ids]
            long = [n for n in ids if len(n) > 110 and n[0] == "n"]
            ids += r.sample(hosts, min(len(hosts), 12))
            unknown = ["nobody", "alice ", " alice", "ALICE", "bobby", "bo", "host", "a" * 99, "", "**", "root", "host999", "bob\n", "*"]
            # an identity is the whole string: nothing of it is stripped, cut or folded
            base = r.sample([n for n in ids if n != "*"], min(len(ids) - 1, ctx.n(2, 8)))
            near = [f(b) for b in base for f in NEAR]
            near = [n for n in near if n and n not in eff]
            unknown += near
            tests = []
            for b in base:
                for n in near:
                    if ref(b) and ref(b) != ref(n) and (b.lower() in n.lower() or n in b):
                        tests.append((n, ref(b), r.choice(["1.2", "1.3"]), False, "another's password"))
            for b in long:
                for n in long:
                    if ref(b) and ref(b) != ref(n):
                        tests.append((n, ref(b), r.choice(["1.2", "1.3"]), False, "password of a similar long name"))
            for ident in ids + unknown:
                want = ref(ident)
                ks = keys_for(r, want, eff, glob, ident)
                names = list(ks)
                r.shuffle(names)
                pick = (["right"] if "right" in ks else []) + [n for n in names if n != "right"][:ctx.n(5 + len(want or b"") // 40, 14)]
                for n in pick:
                    for ver in ("1.2", "1.3") if n == "right" else (r.choice(["1.2", "1.3"]),):
                        if ident == "" and ver == "1.3":
                            continue      # the TLS library refuses an empty identity itself
                        tests.append((ident, ks[n], ver, ks[n] == want, n))
            r.shuffle(tests)

            def one(t):
                ident, key, ver, should, tag = t
                attempt(ctx, srv, ident, key, ver, should, tag)
                ctx.case((srv.tag, t), sample={"identity": ident, "key": tag, "tls": ver, "session": should})
                ctx.count("sessions granted" if should else "sessions refused")
            tests = [t for t in tests if t[0] != "" or not t[3]]
            ctx.pmap(one, tests, 6)
            raw_attempts(ctx, srv)
            time.sleep(0.05)
            data = srv.fifo.snapshot()
            for l in ctx.denied:
                if l in data:
                    raise Violation("a command of a refused client reached the pipe", repr(l))
            if b"plain" in data:
                raise Violation("a plaintext command reached the pipe", repr(data[-200:]))
            srv.check_alive()
    for a in enumerate(kinds):
        if ctx.left(60, 800) < 0:
            break
        ctx.attempt(one_config, a)
    ctx.attempt(resumption, ctx)
