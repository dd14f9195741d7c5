"""C37: the clients submit only to a server that holds the key.  Oracle: what impostors without the key
get to see in the clear, and the outcome the clients report."""
import random, ssl, threading
import bind, cl
from bind import B, U, Driver
from nlib import *

TECHNIQUE = "runtime monitoring: impostor servers (certificates, wrong keys, no TLS, takeover of a genuine server's address) with a disclosure monitor and an outcome oracle"
NOTE = ("send_nsca and the Perl and Python modules, with their default and other cipher lists, meet servers that present RSA or ECDSA certificates (also ones the system trusts), use a key that "
        "differs slightly, know the key but want no encryption, speak the protocol without TLS, or take over the address of a genuine server between two calls, with TLS 1.2 and 1.3.  No impostor may receive a byte of "
        "application data, nothing confidential may cross the network in the clear, and every client has to report a failure; servers with the right key must succeed.")
RULE = ("one case = one run or call against one server; distinct = distinct (client, cipher list, kind of server, TLS version, key or certificate, environment); "
        "non-trivial = a connection was made")
ASSUMPTIONS = ["anonymous cipher suites are used only if the administrator enables them, which these cipher lists don't",
               "an impostor does not know the key; holders of another client's key are other clients' servers, which is not a case that exists"]

CERTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "certs")
SECRET = b"sEcReTmArK"
KEY = b"the-Key-of-a-client-17"


class Impostor(threading.Thread):
    """Accepts whoever is content with what it has got, and acknowledges everything."""

    def __init__(self, kind, version, port=0, key=None):
        super().__init__(daemon=True)
        self.kind, self.version, self.key = kind, version, key
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", port))
        self.s.listen(32)
        self.port = self.s.getsockname()[1]
        self.conns, self.plain, self.raw, self.acks, self.off = 0, b"", b"", 0, False
        self.live = []
        if kind in ("rsa", "ec"):
            self.c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.c.set_ciphers("ALL:@SECLEVEL=0")
            self.c.minimum_version = self.c.maximum_version = {"1.2": ssl.TLSVersion.TLSv1_2, "1.3": ssl.TLSVersion.TLSv1_3}[version]
            self.c.load_cert_chain(f"{CERTS}/{kind}.pem", f"{CERTS}/{kind}.key")
            self.c.load_dh_params(f"{CERTS}/dh.pem")     # (anonymous key exchange is fine with this one, too)
        self.start()

    def run(self):
        while not self.off:
            p = select.poll()
            p.register(self.s, select.POLLIN)
            if not p.poll(50):
                continue
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            self.conns += 1
            t = threading.Thread(target=self.one, args=(c,), daemon=True)
            self.live.append((t, c))
            t.start()

    def one(self, c):
        try:
            c.settimeout(60)
            if self.kind == "key":
                self.psk(c, tlspsk.CIPHERS, self.version)
            elif self.kind == "null":
                self.psk(c, "PSK-NULL-SHA384:PSK-NULL-SHA256:PSK-NULL-SHA:DHE-PSK-NULL-SHA:ECDHE-PSK-NULL-SHA:@SECLEVEL=0", "1.2")
            elif self.kind == "plain":
                f = c.makefile("rwb", 0)
                c.sendall(b"OKAY\r\n")
                while True:
                    b = c.recv(65536)
                    if not b:
                        break
                    self.raw += b
                    c.sendall(b"MOIN 1\r\nOKAY\r\n")
            else:
                t = self.c.wrap_socket(c, server_side=True)
                f = t.makefile("rwb", 0)

                def line():
                    l = f.readline()
                    if not l:
                        raise Closed("end")
                    return l

                def read(n):
                    d = b""
                    while len(d) < n:
                        x = f.read(n - len(d))
                        if not x:
                            raise Closed("end")
                        d += x
                    return d
                self.talk(line, read, f.write)
                t.unwrap()
        except (Closed, TLSError, TimeoutError, OSError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def psk(self, c, ciphers, version):
        ep = tlspsk.Endpoint(c, "server", keys=lambda i: self.key, version=version, ciphers=ciphers)
        ep.keep_raw = True
        try:
            ep.handshake(60)
            self.talk(lambda: ep.readline(60), lambda n: ep.read(n, 60), ep.send)
            ep.shutdown()
            ep.read_to_end(10)
        finally:
            self.raw += ep.raw_in

    def talk(self, line, read, say):
        while True:
            l = line()
            self.plain += l
            w = l.split()
            if w[:1] == [b"MOIN"]:
                say(b"MOIN 1\r\n")
            elif w[:1] == [b"PUSH"]:
                say(b"OKAY\r\n")
                self.plain += read(int(w[1]))
                say(b"OKAY\r\n")
                self.acks += 1
            elif w[:1] == [b"QUIT"]:
                say(b"OKAY\r\n")
                return
            else:
                say(b"OKAY\r\n")

    def close(self):
        self.off = True
        self.join(2)
        self.s.close()
        for t, c in self.live:
            t.join(5)


def others(r):
    """Keys that are almost the right one."""
    k = KEY
    return [k[:-1], k + b"x", k.lower(), k.upper(), k[:8], k[::-1], b"\0" * 22, b"x", k[1:], k[:-1] + b"8", b"change-me", r.randbytes(22)]


def listed(lang):
    """Cipher lists (None: the default)."""
    return [None, "PSK-AES256-CBC-SHA", "PSK", "ALL", "HIGH", "DEFAULT:PSK", "ECDHE:PSK"]


def outcome(ctx, what, imp, ok, msg, good, key):
    if good:
        if not ok or imp.acks != 1 or SECRET not in imp.plain:
            raise Violation(f"{key[0]}: a server with the right key is not accepted", f"{what}: {msg!r} {imp.plain!r} {imp.conns}")
    else:
        if imp.kind == "null" and imp.plain:
            raise Violation(f"{key[0]}: a connection without encryption is accepted", f"{what}: {imp.plain[:300]!r}")
        if imp.plain:
            raise Violation(f"{key[0]}: a server without the key receives what was meant for the server", f"{what}: {imp.plain[:300]!r}, reported {ok} {msg!r}")
        if ok:
            raise Violation(f"{key[0]}: success is reported although the server doesn't have the key", f"{what}: {msg!r}")
        if not msg.strip():
            raise Violation(f"{key[0]}: a failure without a message", what)
    if SECRET in imp.raw or KEY in imp.raw:
        raise Violation(f"{key[0]}: data is disclosed to the network", f"{what}: {imp.raw[:400]!r}")
    ctx.case(key, imp.conns > 0, sample=f"{what}: ok={ok} {msg[:200]!r}")
    ctx.count("impostors met" if not good else "servers with the right key", imp.conns)


def trust(kind, on):
    return {"SSL_CERT_FILE": f"{CERTS}/{kind}.pem", "SSL_CERT_DIR": CERTS} if on and kind in ("rsa", "ec") else {}


def shell(ctx, imp, good, ciphers, sys_, key):
    more = b"" if ciphers is None else b'tls_ciphers = "%s"\n' % ciphers.encode()
    r = cl.send_nsca(ctx, [], b"host\tsvc\t0\t" + SECRET + b"\n\x17", cl.conf(b"client-id", imp.port, KEY, timeout=40, more=more), variant="plain", env=trust(imp.kind, sys_), limit=120)
    if r.timed_out:
        raise Violation("send_nsca does not end", repr(key), soft=True)
    outcome(ctx, f"{key!r} exit {r.rc}", imp, r.rc == 0, r.err, good, key)


def create(drv, lang, o, port, ciphers):
    if lang == "python":
        res = drv("new", o, U("127.0.0.1"), port, U("client-id"), U(KEY.decode()), *([U(ciphers)] if ciphers else []))
    else:
        res = drv("new", o, U("127.0.0.1"), B(b"client-id"), B(KEY), port=port, timeout=20, node_name=U("node"), svc_description=U("svc"), **({"ciphers": U(ciphers)} if ciphers else {}))
    if not res["ok"]:
        raise Violation(f"{lang}: an object cannot be created", repr(res))


def call(drv, lang, o, op):
    if lang == "python":
        return drv(op, o, U("host"), *([U("svc")] if op == "svc" else []), 0, U(SECRET.decode()), 20, limit=200)
    if op == "cmd":
        return drv(op, o, B(b"CMD;" + SECRET), limit=200)
    return drv(op, o, 0, B(SECRET), limit=200)


def module(ctx, lang, imp, good, ciphers, sys_, key, r):
    with Driver(ctx, lang, env=trust(imp.kind, sys_)) as drv:
        create(drv, lang, "o", imp.port, ciphers)
        op = r.choice(["svc", "host"] + ["cmd"] * (lang == "perl"))
        res = call(drv, lang, "o", op)
        ok, err = res["ok"], res.get("err", b"")
        if not ok and not good and r.random() < .5:
            ok = call(drv, lang, "o", op)["ok"]            # trying again does not help
        drv.end()
        outcome(ctx, f"{key!r} {op}", imp, ok, err, good, key)


def takeover(ctx, lang, kind, version, ciphers, r):
    """The genuine server goes away, and an impostor comes up at its address."""
    first = Impostor("key", version, port=free_port(), key=KEY)
    with Driver(ctx, lang, env=trust(kind, True)) as drv:
        try:
            create(drv, lang, "o", first.port, ciphers)
            res = call(drv, lang, "o", "svc")
            if not res["ok"]:
                raise Violation(f"{lang}: a server with the right key is not accepted", repr(res))
        finally:
            first.off = True
            first.join(2)
            first.s.close()
            for t, c in first.live:
                try:
                    c.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                t.join(5)
        imp = Impostor(kind, version, port=first.port, key=b"another key")
        try:
            oks = [call(drv, lang, "o", "svc")["ok"] for _ in range(2)]
            key = (lang, "takeover", kind, version, ciphers)
            if not imp.conns:
                raise Violation(f"{lang}: no attempt to reconnect", repr(key), soft=True)
            outcome(ctx, repr(key), imp, any(oks), b"x", False, key)
        finally:
            imp.close()
        drv.end()


def run(ctx):
    build.client("plain"), build.python_ext("plain"), build.perl_ext("plain")
    r = random.Random(f"{ctx.seed}/c37")
    jobs = []
    for lang in ("send_nsca", "python", "perl"):
        for ciphers in listed(lang):
            for version in ("1.2", "1.3"):
                for kind in ("rsa", "ec"):
                    for sys_ in (False, True):
                        jobs.append((lang, kind, version, None, False, ciphers, sys_))
                jobs.append((lang, "key", version, KEY, True, ciphers, False))
                if version == "1.2":
                    jobs.append((lang, "null", version, KEY, False, ciphers, False))
                for k in r.sample(others(r), ctx.n(2, 12)):
                    jobs.append((lang, "key", version, k, False, ciphers, False))
        jobs.append((lang, "plain", "1.2", None, False, None, False))
        if lang != "send_nsca":
            for kind in ("rsa", "ec", "key"):
                for version in ("1.2", "1.3"):
                    for ciphers in (None, "PSK", "ALL"):
                        jobs.append((lang, "takeover", version, None, False, ciphers, kind))
    r.shuffle(jobs)

    def job(j):
        lang, kind, version, k, good, ciphers, sys_ = j
        rr = random.Random(f"{ctx.seed}/{j!r}")
        if kind == "takeover":
            return takeover(ctx, lang, sys_, version, ciphers, rr)
        imp = Impostor(kind, version, key=k)
        try:
            key = (lang, ciphers, kind, version, k and k.hex(), sys_, good)
            if lang == "send_nsca":
                shell(ctx, imp, good, ciphers, sys_, key)
            else:
                module(ctx, lang, imp, good, ciphers, sys_, key, rr)
        finally:
            imp.close()
    ctx.pmap(job, jobs, 16)
