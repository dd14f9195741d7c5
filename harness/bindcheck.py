"""What is common to the checks of the two language bindings."""
import itertools, random
from bind import *

CHARS = [b"v", b"a b", b"100%s %n %d%%", b"\xe4\xff\x80", "\u20ac\u00fc\u4e2d".encode(), b"a\tb", b"\x01\x1b[m\x7f", b"x|y=1;2;3", b"'\"`\\\\n$(x)", b"  lead", b"trail  ", b"[123] {}", b"\r",
         b"OKAY", b"\\", b"a;b;c"]
HARD = 1000          # commands up to this size have to get through


def piece(r, lang, n=None, plain=False):
    """A text and the argument standing for it: (bytes on the wire, driver value)."""
    if n is not None:
        b = (b"%d:" % n + b"abcdefghijklmnopqrstuvwxyz0123456789" * (n // 30 + 1))[:n]
    else:
        b = b"" if r.random() < .05 else b"".join(r.choice(CHARS[:1] if plain else CHARS) for _ in range(r.choice([1, 1, 2, 5])))
    if lang == "python":
        if r.random() < .5:
            t = b.decode("utf-8", "replace") if b.isascii() or n else b.decode("latin-1")
            return t.encode("utf-8"), U(t)
        try:
            t = b.decode("utf-8")
        except UnicodeDecodeError:
            t = b.decode("latin-1")
        return t.encode("utf-8"), U(t)
    if not b.isascii():
        try:
            t = b.decode("utf-8")
            if all(ord(c) < 128 or ord(c) > 255 for c in t) and r.random() < .5:
                return b, U(t)
        except UnicodeDecodeError:
            pass
    return b, B(b)


class Obj:
    """An object in a driver with its identity at the hub."""

    def __init__(self, ctx, r, drv, hub, timeout=20, key=None, port=None, ident=None):
        self.ctx, self.r, self.drv, self.hub, self.timeout = ctx, r, drv, hub, timeout
        self.lang = drv.lang
        self.id = f"o{id(self)}_{r.randrange(10**9)}"
        key = key if key is not None else b"k" + b"%x" % r.getrandbits(60)
        self.ident = hub.add(key) if ident is None else ident
        self.plan = hub.plans[self.ident]
        self.key, self.port = key, port or hub.port
        self.node, self.svc = None, None
        self.broken = False        # the connection may have been lost meanwhile
        self.serial = 0

    def create(self):
        r = self.r
        if self.lang == "python":
            a = {"host": U("127.0.0.1"), "port": self.port, "identity": U(self.ident.decode()), "psk": U(self.key.decode())}
            n = r.randrange(5)
            names = list(a)
            res = self.drv("new", self.id, *[a[x] for x in names[:n]], **{x: a[x] for x in names[n:]})
        else:
            k = {"port": self.port, "timeout": self.timeout}
            if r.random() < .7:
                self.node, k["node_name"] = piece(r, self.lang, plain=r.random() < .5)
            if r.random() < .7:
                self.svc, k["svc_description"] = piece(r, self.lang, plain=r.random() < .5)
            res = self.drv("new", self.id, U("127.0.0.1"), B(self.ident), B(self.key), ref=r.random() < .5, **k)
        if not res["ok"]:
            raise Violation(f"{self.lang}: an object cannot be created", f"{res}")
        return self

    def make(self, op, n=None):
        """-> (args, kwargs, ref, text on the wire or None for a usage error, stamped)"""
        r, lang = self.r, self.lang
        self.serial += 1
        tag = b"%s.%d." % (self.ident, self.serial)
        if op == "cmd":
            k = r.randrange(4)
            body = b"CMD_%s;" % tag + (piece(r, lang, n)[0] if n is not None or r.random() < .8 else b"")
            body = body.replace(b"\n", b" ")
            if k == 0:
                c, text, stamped = b"[%d] " % r.choice([1, 99, 1500000000, 4294967295]) + body, None, False
                text = c
            elif k == 1:
                c, text, stamped = body, body, True
            elif k == 2:
                c, text, stamped = b"[1500000000] " + body + b"\n", b"[1500000000] " + body, False
            else:
                c, text, stamped = body + b"\n", body, True
            return [B(c)], {}, False, text + b"\n", stamped
        host, hv = piece(r, lang)
        svc, sv = piece(r, lang)
        out, ov = piece(r, lang, n)
        host, hv = tag + host, None
        hv = (U(host.decode("utf-8")) if lang == "python" else B(host))
        rc = r.choice([0, 1, 2, 3, 4, 127, 255, -1])
        if lang == "python":
            a = {"host_name": hv}
            if op == "svc":
                a["svc_description"] = sv
            a["return_code"] = rc
            if n is not None or r.random() < .9:
                a["plugin_output"] = ov
            else:
                out = b""
            names = list(a)
            m = r.randrange(len(names) + 1)
            args, kw = [a[x] for x in names[:m]], {x: a[x] for x in names[m:]}
            kw["timeout"] = self.timeout
            return args, kw, False, result(host, svc if op == "svc" else None, rc, out) + b"\n", True
        kw = {}
        given = r.random()
        kw["node_name"] = hv
        if op == "svc":
            if given < .6 or self.svc is None and given < .95:
                kw["svc_description"] = sv
            else:
                svc = self.svc
        # The object's defaults are used for what is not given.
        if self.node is not None and r.random() < .3:
            del kw["node_name"]
            host = self.node
            out = tag + out
            ov = B(out)
        text = None if host is None or op == "svc" and svc is None else result(host, svc if op == "svc" else None, rc, out) + b"\n"
        return [rc, ov], kw, r.random() < .5, text, True

    def call(self, op=None, n=None, expect="ok", made=None, limit=90, errno=None):
        """expect: ok, err, any.  Judges the outcome."""
        op = op or self.r.choice(["svc", "host"] + (["cmd"] if self.lang == "perl" else []))
        args, kw, ref, text, stamped = made or self.make(op, n)
        if expect == "ok" and n is not None and text is not None and len(text) + 14 > HARD:
            expect = "any"
        if text is None:
            expect = "err"
        before = len(self.plan.ev)
        res = self.drv(op, self.id, *args, ref=ref, errno=errno, limit=limit, **kw)
        what = f"{self.lang} {self.drv.log[-1]}"
        if not getattr(self.ctx, "judge", True):
            self.ctx.count("calls made")
            self.broken = False
            return res
        acks = self.plan.since(before, "ACK")
        mine = text is not None and [e for e in acks if same(e[2], text, res["t0"], res["t1"], stamped)]
        other = [e[2] for e in acks if not (text is not None and same(e[2], text, res["t0"], res["t1"], stamped)) and not self.known(e[2])]
        if res["ok"] and not mine:
            raise Violation(f"{self.lang}: success without the server having acknowledged the command", f"{what}\nwanted {text!r}, server: {self.plan.ev[before:][-12:]!r}"[:4000])
        if other:
            raise Violation(f"{self.lang}: another command than the one asked for was acknowledged", f"{what}\nwanted {text!r}, got {other!r}"[:4000])
        if not res["ok"] and not res["err"].strip():
            raise Violation(f"{self.lang}: an error without a message", what)
        if self.lang == "python" and res["ok"] and res["val"] != "None":
            raise Violation("python: success does not return None", f"{what} {res}")
        if res["ok"] and expect == "err":
            raise Violation(f"{self.lang}: success although it should be an error", f"{what} {self.plan.ev[before:][-8:]!r}"[:3000])
        if not res["ok"] and expect == "ok":
            if self.broken and self.lang == "perl":
                # A lost connection is noticed by a failing call.
                self.broken = False
                self.ctx.count("lost connections noticed")
                return self.call(op, n, "ok", made, limit, errno)
            raise Violation(f"{self.lang}: a correct call fails although the server is there", f"{what} {res['err']!r}; server: {self.plan.ev[before:][-8:]!r} "
                            f"{[c['error'] for c in self.hub.fs.conns[-3:]]}"[:4000], soft=True)
        self.sent = getattr(self, "sent", [])
        if text is not None:
            self.sent.append((text, stamped, res["t0"], res["t1"]))
            self.broken = False
        self.ctx.count("outcomes judged")
        return res

    def known(self, d):
        """A command of an earlier call, acknowledged late."""
        return any(same(d, t, a, b, s) for t, s, a, b in getattr(self, "sent", []))


def forms(ctx, lang, k, variant="plain"):
    """Correct calls of all forms and sizes."""
    r = random.Random(f"{ctx.seed}/forms{lang}{k}")
    with Hub2(ctx, version=[None, "1.2", "1.3"][k % 3]) as hub, Driver(ctx, lang, variant) as drv:
        objs = [Obj(ctx, r, drv, hub).create() for _ in range(r.choice([1, 1, 2, 3]))]
        sizes = [None] * 14 + r.sample([1, 100, 500, 900, 940, 960, 980, 1000, 1005, 1010, 1015, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 2000, 2047, 2048, 4000,
                                        10000, 16000, 70000, *range(930, 1040)], 24)
        # Around the edge of the sending buffer.
        r.shuffle(sizes)
        for n in sizes:
            o = r.choice(objs)
            res = o.call(n=n, errno=r.choice([None, 2, 11, 34]) if lang == "perl" else None)
            ctx.case((lang, "form", n, k if n is None else res["ok"]))
            if n is not None:
                ctx.count("long results refused" if not res["ok"] else "long results accepted")
        if lang == "perl":
            usage_perl(ctx, r, drv, objs[0], hub)
        else:
            usage_python(ctx, r, drv, objs[0], hub)
        for o in objs:
            o.call()
        drv.end()


def sweep(ctx, lang, k, parts=8):
    """Commands of each length (as sent, with time stamp and newline) that has to get through."""
    r = random.Random(f"{ctx.seed}/sweep{lang}{k}")
    with Hub2(ctx, version=None) as hub, Driver(ctx, lang, "plain") as drv:
        o = Obj(ctx, r, drv, hub).create()
        kinds = ["host", "svc"] + (["cmd", "own"] if lang == "perl" else [])
        for size in range(70 + k % parts, HARD + 1, parts):
            for kind in (kinds if ctx.thorough else r.sample(kinds, 2)):
                o.serial += 1
                tag = b"%d." % o.serial
                base = {"host": b"PROCESS_HOST_CHECK_RESULT;%s;0;" % tag, "svc": b"PROCESS_SERVICE_CHECK_RESULT;%s;s;0;" % tag, "cmd": b"C%s;" % tag, "own": b"[1] C%s;" % tag}[kind]
                fill = size - len(base) - 1 - (13 if kind != "own" else 0)
                if fill < 1:
                    continue
                out = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFG 0123456789%;\\\"'") for _ in range(fill - 1)) + b"z"
                text = base + out + b"\n"
                kw = {}
                if kind in ("cmd", "own"):
                    args = [B(text[:-1] if r.random() < .7 else text)]
                elif lang == "perl":
                    args, kw = [0, B(out)], {"node_name": B(tag), **({"svc_description": B(b"s")} if kind == "svc" else {})}
                else:
                    args, kw = [U(tag.decode())] + ([U("s")] if kind == "svc" else []) + [0, U(out.decode())], {"timeout": o.timeout}
                o.call("cmd" if kind == "own" else kind, made=(args, kw, False, text, kind != "own"))
                ctx.case((lang, "sweep", kind, size))
                ctx.count("lengths swept")
        drv.end()


def edge(ctx, lang, k):
    """Commands of lengths which the modules may refuse, but not alter."""
    r = random.Random(f"{ctx.seed}/edge{lang}{k}")
    with Hub2(ctx, version=None) as hub, Driver(ctx, lang, "plain") as drv:
        o = Obj(ctx, r, drv, hub).create()
        for kind in ["host", "svc"] + (["cmd", "own"] if lang == "perl" else []):
            last = None
            for size in range(1001, 1045):
                o.serial += 1
                tag = b"%d." % o.serial
                base = {"host": b"PROCESS_HOST_CHECK_RESULT;%s;0;" % tag, "svc": b"PROCESS_SERVICE_CHECK_RESULT;%s;s;0;" % tag, "cmd": b"C%s;" % tag, "own": b"[1] C%s;" % tag}[kind]
                out = b"o" * (size - len(base) - 2 - (13 if kind != "own" else 0)) + b"z"
                text = base + out + b"\n"
                kw = {}
                nl = r.random() < .5
                if kind in ("cmd", "own"):
                    args = [B(text if nl else text[:-1])]
                elif lang == "perl":
                    args, kw = [0, B(out)], {"node_name": B(tag), **({"svc_description": B(b"s")} if kind == "svc" else {})}
                else:
                    args, kw = [U(tag.decode())] + ([U("s")] if kind == "svc" else []) + [0, U(out.decode())], {"timeout": o.timeout}
                res = o.call("cmd" if kind == "own" else kind, made=(args, kw, False, text, kind != "own"), expect="any")
                ctx.case((lang, "edge", kind, size, nl, res["ok"]))
                ctx.count("lengths at the edge", 1)
        o.call()
        drv.end()


def idle(ctx, lang, k):
    """A long-lived object: each command is stamped with the time of its own call."""
    r = random.Random(f"{ctx.seed}/idle{lang}{k}")
    with Hub2(ctx, version=[None, "1.2"][k % 2]) as hub, Driver(ctx, lang, "plain") as drv:
        objs = [Obj(ctx, r, drv, hub).create() for _ in range(2)]
        ops = ["host", "svc"] + (["cmd"] if lang == "perl" else [])
        for i in range(3):
            for o in objs:
                r.shuffle(ops)
                for op in ops:
                    o.call(op)
            ctx.case((lang, "idle", k, i))
            if i < 2:
                time.sleep(2.6 + r.random())
        drv.end()


def credentials(ctx, lang, k):
    """Identities and keys of all lengths are used as they are."""
    r = random.Random(f"{ctx.seed}/credentials{lang}{k}")
    cases = [(n, 20) for n in (1, 2, 15, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 180, 250)] + [(20, n) for n in (1, 2, 15, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 180, 250)]
    with Hub2(ctx, version=[None, "1.2", "1.3"][k % 3]) as hub, Driver(ctx, lang, "plain") as drv:
        text = lambda n: bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.@/+=") for _ in range(n))
        used = set()
        for a, b in cases:
            ident = text(a)
            while ident in used:
                ident = text(a)
            used.add(ident)
            key = text(b)
            hub.add(key, ident)
            o = Obj(ctx, r, drv, hub, key=key, ident=ident)
            o.create()
            o.call("host", made=([0, B(b"x")], {"node_name": B(b"n%d.%d" % (a, b))}, False, result(b"n%d.%d" % (a, b), None, 0, b"x") + b"\n", True) if lang == "perl" else
                   ([U("n%d.%d" % (a, b)), 0, U("x")], {"timeout": o.timeout}, False, result(b"n%d.%d" % (a, b), None, 0, b"x") + b"\n", True))
            ctx.case((lang, "credentials", a, b, k))
            ctx.count("credential lengths")
        drv.end()


def attempt(ctx, o, op, args, kw=None, text=None, stamped=True, expect="any", ref=False):
    """Like Obj.call, for particular arguments."""
    return o.call(op, made=(args, kw or {}, ref, text, stamped), expect=expect)


def usage_perl(ctx, r, drv, o, hub):
    o2 = Obj(ctx, r, drv, hub)
    if not drv("new", o2.id, U("127.0.0.1"), B(o2.ident), B(o2.key), port=hub.port, timeout=20)["ok"]:
        raise Violation("perl: an object cannot be created")
    cases = [
        # (op, args, kw, text or None for an error)
        ("svc", [0, B(b"x")], {}, None), ("svc", [0, B(b"x")], {"node_name": B(b"n")}, None), ("svc", [0, B(b"x")], {"svc_description": B(b"s")}, None),
        ("host", [0, B(b"x")], {}, None), ("host", [0, B(b"x")], {"svc_description": B(b"s")}, None),
        ("host", [1, B(b"x")], {"node_name": B(b"n"), "svc_description": B(b"ignored")}, result(b"n", None, 1, b"x") + b"\n"),
        ("svc", [2, B(b"x")], {"node_name": B(b"n"), "svc_description": B(b"s")}, result(b"n", b"s", 2, b"x") + b"\n"),
        ("svc", ["3", "x"], {"node_name": B(b"n"), "svc_description": 7}, result(b"n", b"7", 3, b"x") + b"\n"),
        ("cmd", [None], {}, None),
        ("cmd", [B(b"[abc] X")], {}, None), ("cmd", [B(b"[ 12] X")], {}, None), ("cmd", [B(b"[-1] X")], {}, None), ("cmd", [B(b"[12 X")], {}, None), ("cmd", [B(b"[] X")], {}, None),
        ("cmd", [B(b"[99999999999999999999999] X")], {}, "any"),
        # A NUL character ends a string in C.
        ("host", [0, B(b"a\0b")], {"node_name": B(b"n")}, "nul"), ("host", [0, B(b"ab")], {"node_name": B(b"n\0x")}, "nul"),
        ("svc", [0, B(b"ab")], {"node_name": B(b"n"), "svc_description": B(b"s\0")}, "nul"), ("cmd", [B(b"X;a\0b")], {}, "nul"), ("cmd", [B(b"[12] X;a\0")], {}, "nul"),
    ]
    # What is given takes precedence over the object's defaults, also if Perl deems it false.
    o3 = Obj(ctx, r, drv, hub)
    if not drv("new", o3.id, U("127.0.0.1"), B(o3.ident), B(o3.key), port=hub.port, timeout=20, node_name=B(b"defn"), svc_description=B(b"defs"))["ok"]:
        raise Violation("perl: an object cannot be created")
    for n, s in itertools.product((None, b"0", b"0.0", b"00", b"n"), (None, b"0", b"0.0", b"s")):
        kw = {**({"node_name": B(n)} if n is not None else {}), **({"svc_description": B(s)} if s is not None else {})}
        attempt(ctx, o3, "svc", [1, B(b"0")], kw, result(n or b"defn", s or b"defs", 1, b"0") + b"\n", expect="ok")
        if s is None:
            attempt(ctx, o3, "host", [0, B(b"0")], kw, result(n or b"defn", None, 0, b"0") + b"\n", expect="ok")
        ctx.count("usage cases")
    for op, a, kw, text in cases:
        if text == "nul":
            full = {"host": lambda: b"PROCESS_HOST_CHECK_RESULT;" + bytes.fromhex(kw["node_name"][1]) + b";0;" + bytes.fromhex(a[1][1]),
                    "svc": lambda: b"PROCESS_SERVICE_CHECK_RESULT;" + bytes.fromhex(kw["node_name"][1]) + b";" + bytes.fromhex(kw["svc_description"][1]) + b";0;"
                    + bytes.fromhex(a[1][1]), "cmd": lambda: bytes.fromhex(a[0][1])}[op]() + b"\n"
            attempt(ctx, o2, op, a, kw, full, stamped=not full.startswith(b"["))
        elif text == "any":
            attempt(ctx, o2, op, a, kw, bytes.fromhex(a[0][1]) + b"\n", stamped=False)
        else:
            attempt(ctx, o2, op, a, kw, text, expect="ok" if text else "err")
        ctx.case(("perl usage", op, text if isinstance(text, str) else text is None, str(a), str(kw)))
        ctx.count("usage cases")


def usage_python(ctx, r, drv, o, hub):
    t = o.timeout
    big = [
        ("host", [U("n"), 2**31 - 1], {"timeout": t}, result(b"n", None, 2**31 - 1, b"") + b"\n", "any"),
        ("host", [U("n"), 2**32, U("x")], {"timeout": t}, result(b"n", None, 2**32, b"x") + b"\n", "any"),
        ("host", [U("n"), 2**32 + 3, U("x")], {"timeout": t}, result(b"n", None, 2**32 + 3, b"x") + b"\n", "any"),
        ("svc", [U("n"), U("s"), 2**31 + 1, U("x")], {"timeout": t}, result(b"n", b"s", 2**31 + 1, b"x") + b"\n", "any"),
        ("svc", [U("n"), U("s"), -2**31, U("x")], {"timeout": t}, result(b"n", b"s", -2**31, b"x") + b"\n", "any"),
        ("svc", [U("n"), U("s"), 2**64 + 1, U("x")], {"timeout": t}, result(b"n", b"s", 2**64 + 1, b"x") + b"\n", "any"),
        ("svc", [U("n\0x"), U("s"), 0, U("x")], {"timeout": t}, result(b"n\0x", b"s", 0, b"x") + b"\n", "any"),
        ("svc", [U("n"), U("s"), 0, U("x\0y")], {"timeout": t}, result(b"n", b"s", 0, b"x\0y") + b"\n", "any"),
        ("host", [U("n")], {"timeout": t}, None, "err"), ("host", [], {"timeout": t}, None, "err"), ("svc", [U("n"), U("s")], {"timeout": t}, None, "err"),
        ("svc", [U("n"), U("s"), U("0")], {"timeout": t}, None, "err"), ("svc", [U("n"), 0, 0], {"timeout": t}, None, "err"), ("host", [None, 0], {"timeout": t}, None, "err"),
        ("host", [U("n"), 0, U("x"), t, 1], {}, None, "err"), ("host", [U("n"), 0], {"timeout": t, "bogus": 1}, None, "err"), ("host", [U("n"), 1.5], {"timeout": t}, None, "err"),
        ("host", [["b", ""], 0], {"timeout": t}, result(b"", None, 0, b"") + b"\n", "ok"),
    ]
    for op, a, kw, text, expect in big:
        attempt(ctx, o, op, a, kw, text, expect=expect)
        ctx.case(("python usage", op, str(a)))
        ctx.count("usage cases")


def actions(r, t):
    """Faults: (name, kind, action)"""
    fail = [b"FAIL no way\r\n", b"FAIL\r\n", b"FAIL %s%s%s%n\r\n", b"FAIL " + b"x" * 900 + b"\r\n", b"FAIL\n", b"fail lower\r\n"]
    bail = [b"BAIL go away\r\n", b"BAIL\r\n", b"BAIL %n%s\r\n"]
    junk = [b"\r\n", b"\n", b"HELLO 1\r\n", b"\0\0\0\n", b"okay?\r\n", b"FAI\r\n", b"O\n", b"OK\r\n", b"OKA\r\n", b"OKEY\r\n", b"YOKAY\r\n", b"\xff\xfe\n", b"200 OK\r\n", b"NOOP\r\n", b"x" * 1023 + b"\n", b"x" * 1024 + b"\n", b"x" * 5000 + b"\n"]
    out = []
    for kind in ("MOIN", "PUSH", "DATA"):
        for b in fail:
            out.append((f"fail {b[:8]!r}", kind, b))
        for b in bail:
            out.append((f"bail {b[:8]!r}", kind, b))
        for b in junk:
            out.append((f"junk {b[:8]!r}", kind, b))
        out += [("close", kind, ("close",)), ("drop", kind, ("drop",)), ("reset", kind, ("reset",)), ("stall", kind, ("stall", 3 * t + 3)),
                ("half", kind, ("send+close", b"OKA")), ("nonl", kind, ("send+close", b"FAIL x")), ("tls junk", kind, ("junk", b"\x17\x03\x03\x00\x20" + r.randbytes(32))),
                ("tls alert", kind, ("junk", b"\x15\x03\x03\x00\x02\x02\x28"))]
    out += [("frag", "MOIN", ("frag", .05, [b"MO", b"IN", b" 1", b"\r", b"\n"])), ("frag", "PUSH", ("frag", .05, [b"O", b"KAY", b"\r", b"\n"])),
            ("frag", "DATA", ("frag", .05, [b"OKA", b"Y\r\n"])), ("frag fail", "DATA", ("frag", .05, [b"F", b"AIL x\r", b"\n"])),
            ("version", "MOIN", b"MOIN 2\r\n"), ("version", "MOIN", b"MOIN 10\r\n"), ("version", "MOIN", b"MOIN\r\n"), ("version", "MOIN", b"MOIN \r\n"), ("version", "MOIN", b"MOIN\n"),
            ("wrong", "MOIN", b"OKAY\r\n"), ("wrong", "PUSH", b"MOIN 1\r\n"), ("wrong", "DATA", b"MOIN 1\r\n"),
            ("late", "PUSH", ("late", t + 1.4, b"OKAY\r\n")), ("late", "DATA", ("late", t + 1.4, b"OKAY\r\n")), ("late", "MOIN", ("late", t + 1.4, b"MOIN 1\r\n")),
            ("late fail", "DATA", ("late", t + 1.4, b"FAIL late\r\n")),
            ("ack+close", "DATA", ("send+close", b"OKAY\r\n")), ("explained", "DATA", b"OKAY fine\r\n"), ("explained", "PUSH", b"OKAY go on\r\n"),
            ("tls", "TLS", ("junk", b"\x17\x03\x03\x00\x20" + r.randbytes(32))), ("tls", "TLS", ("drop",)), ("tls", "TLS", ("stall", 3 * t + 3)), ("tls", "TLS", ("reset",))]
    return out


def faults(ctx, lang, k, variant="plain", n=7, what=None, t=1):
    """Sequences of calls on one object with servers that refuse, break, stall or answer late."""
    r = random.Random(f"{ctx.seed}/faults{lang}{k}{what}")
    with Hub2(ctx, version=[None, "1.2"][k % 2]) as hub, Driver(ctx, lang, variant) as drv:
        o = Obj(ctx, r, drv, hub, timeout=t)
        o.create()
        acts = actions(r, t)
        slow = [a for a in acts if a[0] in ("stall", "late", "late fail") or a[1] == "TLS" and a[2][0] == "stall"]
        fast = [a for a in acts if a not in slow]
        r.shuffle(slow)
        r.shuffle(fast)
        if what is None:
            todo = slow[:1] + fast[:n - 1]
        else:
            todo = [acts[i % len(acts)] for i in what]
        r.shuffle(todo)
        for name, kind, a in todo:
            times = r.choice([1, 2, 2, 4])
            if r.random() < .3:
                o.call(expect="any" if o.timeout < 5 else "ok")
            with o.plan.lock:
                o.plan.faults = {kind: [a] * times}
                o.plan.faults["NOTHING"] = []
            b = len(o.plan.ev)
            res = o.call(expect="any")
            ctx.case((lang, "fault", name, kind, times, res["ok"]))
            ctx.count("faulty calls " + ("accepted" if res["ok"] else "refused"))
            # What is left over of the fault is gone; a call meets a server that says no.
            if r.random() < .6:
                with o.plan.lock:
                    o.plan.faults = {"DATA": [b"FAIL not this\r\n"] * 4}
                o.call(expect="err")
            with o.plan.lock:
                o.plan.faults = {}
            o.timeout, keep = 20, o.timeout
            if lang == "perl":
                o.timeout = keep
            if name in ("ack+close",) or res["ok"]:
                o.broken = True
            # The object still works.  A timeout under load is no proof of the contrary.
            for i in range(3):
                x = o.call(expect="any" if lang == "perl" and i < 2 else "ok")
                if x["ok"]:
                    break
                ctx.count("repeated calls")
            if not x["ok"] and getattr(ctx, "judge", True):
                raise Violation(f"{lang}: the object is not usable after an error", f"{name} {kind} {drv.log[-6:]}: {x['err']!r}", soft=True)
            o.timeout = keep
        drv.end()


def answers(ctx, lang, k):
    """Answers whose meaning leaves no choice: in pieces, and of servers with another protocol version."""
    r = random.Random(f"{ctx.seed}/answers{lang}{k}")
    with Hub2(ctx, version=[None, "1.2", "1.3"][k % 3]) as hub, Driver(ctx, lang, "plain") as drv:
        o = Obj(ctx, r, drv, hub, timeout=20).create()
        for i in range(ctx.n(8, 30)):
            kind = r.choice(["MOIN", "PUSH", "DATA", "DATA", "all"])
            fault = {}
            for n in (("MOIN", "PUSH", "DATA") if kind == "all" else (kind,)):
                b = {"MOIN": b"MOIN 1\r\n"}.get(n, b"OKAY\r\n")
                cuts = sorted(r.sample(range(1, len(b)), r.choice([1, 1, 2, len(b) - 1])))
                fault[n] = [("frag", r.choice([0, .005, .05]), [b[x:y] for x, y in zip([0] + cuts, cuts + [len(b)])])]
            if "MOIN" in fault:
                # a new connection
                o = Obj(ctx, r, drv, hub, timeout=20).create()
            with o.plan.lock:
                o.plan.faults = fault
            o.call(expect="ok")
            ctx.count("answers in pieces")
            ctx.case((lang, "pieces", kind, k, i))
        for v in (b"0", b"2", b"10", b"12", b"100", b"11"):
            o = Obj(ctx, r, drv, hub, timeout=20).create()
            with o.plan.lock:
                o.plan.faults = {"MOIN": [b"MOIN " + v + b"\r\n"] * 4}
            o.call(expect="err")
            ctx.count("other protocol versions")
            ctx.case((lang, "version", v, k))
        drv.end()


def gone(ctx, lang, k, variant="plain"):
    """The server goes away and comes back between calls, or is not there at all."""
    r = random.Random(f"{ctx.seed}/gone{lang}{k}")
    hub = Hub2(ctx)
    port = hub.port
    key = b"thekey"
    ident = b"keeper"
    hub.add(key, ident)
    with Driver(ctx, lang, variant) as drv:
        try:
            o = Obj(ctx, r, drv, hub, timeout=5, key=key, ident=ident)
            o.create()
            for i in range(4):
                o.call()
                hub.close()
                o.broken = True
                if r.random() < .5:
                    o.call(expect="err")
                    if r.random() < .5:
                        o.call(expect="err")
                hub = None
                for _ in range(100):
                    try:
                        hub = Hub2(ctx, port=port)
                        break
                    except OSError:
                        time.sleep(.05)
                if hub is None:
                    raise Inconclusive("port taken")
                hub.add(key, ident)
                o.hub, o.plan = hub, hub.plans[ident]
                o.call()
                o.call()
                ctx.case((lang, "restart", i, k))
                ctx.count("restarts")
        finally:
            if hub:
                hub.close()
        drv.end()


def real(ctx, lang, k, variant="plain"):
    """The real server: what is in the pipe is what was reported as delivered."""
    r = random.Random(f"{ctx.seed}/real{lang}{k}")
    auth = 'authorize "id" {\n password = "pw"\n commands = { "OK.*", "CMD_.*", "PROCESS_.*;ok.*" }\n}\n'
    srv = Server(ctx, auth=auth, opts="max_command_size = 5000", variant="plain", loglevel=3)
    port = srv.port
    want = []
    try:
        with Driver(ctx, lang, variant) as drv:
            if lang == "python":
                res = drv("new", "o", U("127.0.0.1"), port, U("id"), U("pw"))
            else:
                res = drv("new", "o", U("127.0.0.1"), U("id"), U("pw"), port=port, timeout=20, node_name=U("ok-node"))
            if not res["ok"]:
                raise Violation(f"{lang}: an object cannot be created", f"{res}")
            for i in range(ctx.n(30, 100)):
                lost = i % 9 == 8 and r.random() < .6
                if lost:
                    # A restart in between.
                    n = sum(len(w) + 14 for w in want)
                    wait_for(lambda: len(srv.fifo.snapshot()) >= n, 10)
                    srv.p.terminate()
                    srv.p.wait(60)
                    srv.start()
                    if srv.port != port:
                        raise Inconclusive("port taken")
                    ctx.count("restarts")
                good = r.random() < .75
                host = (b"ok%d" if good else b"no%d") % i
                out = r.choice([b"fine", b"", b"a|b=1;2", b"\xc3\xa4", b"x" * r.choice([10, 600, 900, 2000]), b"two\nlines"])
                svc = r.choice([None, b"svc", b"a b"])
                text = result(host, svc, i % 4, out)
                if lang == "python":
                    a = [U(host.decode())] + ([U(svc.decode())] if svc is not None else []) + [i % 4, U(out.decode())]
                    res = drv("host" if svc is None else "svc", "o", *a, timeout=20)
                elif svc is None:
                    res = drv("host", "o", i % 4, B(out), node_name=B(host))
                else:
                    res = drv("svc", "o", i % 4, B(out), node_name=B(host), svc_description=B(svc))
                if lost and lang == "perl" and not res["ok"]:
                    continue
                if b"\n" in out or not good:
                    if res["ok"]:
                        raise Violation(f"{lang}: success although the server refuses the command", f"{drv.log[-1]}")
                elif not res["ok"] and len(text) < HARD - 14:
                    raise Violation(f"{lang}: a correct call fails although the server is there", f"{drv.log[-1]} {res}", soft=True)
                if res["ok"]:
                    want.append(text)
                ctx.case((lang, "real", good, svc is None, len(out), res["ok"]))
            drv.end()
        n = sum(len(w) + 14 for w in want)
        wait_for(lambda: len(srv.fifo.snapshot()) >= n, 10)
        cmds, _, problems = expand([x + b"\n" for x in srv.fifo.snapshot().split(b"\n")[:-1]])
        got = [re.sub(rb"^\[\d+\] ", b"", x).rstrip(b"\n") for x in cmds]
        if got != want:
            i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), None)
            raise Violation(f"{lang}: the commands in the pipe are not the ones reported as delivered", f"{i}: {got[i:i + 1]!r} instead of {want[i:i + 1]!r}")
        ctx.count("commands found in the pipe", len(got))
    finally:
        srv.stop(check=False)
        srv.fifo.shutdown()
