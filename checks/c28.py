"""C28: the Perl and Python clients are memory-safe and do not hang.  Oracles: AddressSanitizer and
UndefinedBehaviorSanitizer inside the interpreters, MemorySanitizer on the protocol code with
stand-ins for OpenSSL, and the duration of each call."""
import bindcheck
from bindcheck import *

TECHNIQUE = "sanitizers inside the interpreters (ASan, UBSan) and on the protocol code with scripted I/O (ASan, UBSan, MSan); time limits on calls against stalling servers"
NOTE = ("The real modules, built with sanitizers, run in the real interpreters against scripted servers that send short, oversized, malformed, fragmented and random "
        "responses, break off or stall at each step; with arguments of all sizes, objects whose construction failed, was skipped or was repeated, objects destroyed "
        "in any order, and with more than 1100 descriptors open.  The protocol code (client.c) of both runs with stand-ins for OpenSSL, clock and poll(2) through "
        "hundreds of thousands of random sessions under ASan/UBSan and MSan.  Calls against servers that stall or dribble must return within the limits.")
RULE = ("one case = one call, call sequence or block of scripted sessions; distinct = distinct (language, kind, response or fault, step, outcome); all are non-trivial")
ASSUMPTIONS = ["each call makes at most two attempts of at most six waiting steps, each limited by the timeout with a granularity of one second",
               "OpenSSL and the interpreters themselves are not instrumented; errors inside them caused by the modules are seen as crashes or allocator reports"]


class Loose:
    """Lets outcomes pass: they are another property's."""

    def __init__(self, ctx):
        self.__dict__["ctx"] = ctx

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    judge = False


def scenario(ctx, lang, kind, k):
    getattr(bindcheck, kind)(Loose(ctx), lang, k, variant="asan")


def blob(r):
    """A response."""
    k = r.randrange(9)
    word = r.choice([b"MOIN 1", b"OKAY", b"FAIL", b"BAIL", b"FAIL x", b"BAIL x", b"MOIN", b"MOIN 2", b"O", b"", b"F", b"FAI", b"QUIT", b"\xff\xfe"])
    eol = r.choice([b"\r\n", b"\n", b"\r\n\r\n", b"\n\n", b"\r"])
    if k == 0:
        return word + eol
    if k == 1:
        return word + b" " + bytes(r.choice(b"abc %sn\0\r\t\xe4") for _ in range(r.randrange(60))) + eol
    if k == 2:
        return word + b"x" * r.choice([1000, 1010, *range(1014, 1030), 1100, 2048, 5000, 16384, 20000]) + eol
    if k == 3:
        return r.randbytes(r.choice([1, 2, 3, 5, 20, 1023, 1024, 1025, 3000])) + eol
    if k == 4:
        return word + b"%s%n%x%p" * r.choice([1, 5, 60]) + eol
    if k == 5:
        return word + b"\0" * r.choice([1, 3, 1020]) + eol
    if k == 6:
        return b"\n" * r.choice([1, 2, 1023, 1024, 1025])
    if k == 7:
        return b"\r" * r.choice([1, 2, 1023]) + b"\n"
    return word + r.choice([b"", b" ", b"  ", b"x", b"\t"]) + eol


def hostile(ctx, lang, k):
    """Random responses at random steps."""
    r = random.Random(f"{ctx.seed}/hostile{lang}{k}")
    ctx = Loose(ctx)
    with Hub2(ctx, version=[None, "1.2"][k % 2]) as hub, Driver(ctx, lang, "asan") as drv:
        many = k % 3 == 1
        if many:
            drv.send({"op": "fds", "n": 1150})
            ctx.count("sessions with more than 1100 descriptors")
        o = Obj(ctx, r, drv, hub, timeout=1)
        o.create()
        for i in range(ctx.n(40, 150)):
            kind = r.choice(["MOIN", "PUSH", "DATA", "DATA"])
            b = blob(r)
            a = b
            if r.random() < .4:
                cut = sorted(r.randrange(len(b) + 1) for _ in range(r.choice([1, 2, 5])))
                a = ("frag", r.choice([0, .001, .01]), [b[x:y] for x, y in zip([0] + cut, cut + [len(b)]) if y > x] or [b"\n"])
            elif r.random() < .3:
                a = ("send+close", b)
            # Without a line end the client has to wait for its timeout.
            if not b.endswith(b"\n") and r.random() < .9:
                a = ("send+close", b)
            with o.plan.lock:
                o.plan.faults = {kind: [a] * r.choice([1, 2])}
            if kind == "MOIN" and r.random() < .7:
                drv.send({"op": "del", "id": o.id})
                o.create()
            res = o.call(expect="any", n=r.choice([None, None, 1000, 1010, 1023, 1024, 3000]))
            leak(lang, res, o, b)
            ctx.case((lang, "hostile", kind, b[:5], len(b) > 1000, a is b, many, res["ok"]))
            ctx.count("hostile responses")
        drv.end()


def leak(lang, res, o, b):
    """An error message repeats only what the server sent."""
    if res["ok"]:
        return
    m = re.match(rb"\w*(?:: )?(?:FAIL|BAIL): (.*?)(?: at -e line.*)?$", res["err"].rstrip(b"\n"), re.S)
    if not m or b"time stamp" in res["err"]:
        return
    text = m[1]
    # Undecodable bytes are replaced.
    plain = re.sub(rb"[^a-zA-Z0-9 ]", b"", text)
    if len(text) < 900 and plain not in re.sub(rb"[^a-zA-Z0-9 ]", b"", b):
        raise Violation(f"{lang}: an error message with text that the server did not send", f"{text!r} for the response {b[:200]!r}")


def lifecycles(ctx, lang, k):
    """Objects in all states, used in any order."""
    r = random.Random(f"{ctx.seed}/life{lang}{k}")
    ctx = Loose(ctx)
    with Hub2(ctx) as hub, Driver(ctx, lang, "asan") as drv:
        ident = hub.add(b"key")
        objs = []
        other = free_port()

        def args():
            """Constructor arguments, right or wrong."""
            w = r.random()
            host, port, i, key = U("127.0.0.1"), hub.port, U(ident.decode()), U("key")
            c = None
            if w < .12:
                c = U("BOGUS")
            elif w < .2:
                host = r.choice([U("no.such.host.invalid"), U(""), U("x" * 5000), U("1.2.3.4.5:6:7"), U("*"), U("[::1"), U("127.0.0.1:99999")])
            elif w < .3:
                port = r.choice([other, 0, 65536, 99999, 2**31 - 1, -1, 566812])
            elif w < .4:
                i = U(r.choice(["", "x", "i" * 127, "i" * 128, "i" * 129, "i" * 255, "i" * 256, "i" * 257, "i" * 5000]))
            elif w < .5:
                key = U(r.choice(["", "x", "k" * 255, "k" * 256, "k" * 257, "k" * 512, "k" * 513, "k" * 5000]))
            elif w < .55 and lang == "python":
                port = r.choice([2**31, 2**32 + 5, -2**31, 2**70, "x", None])
            elif w < .6:
                host = r.choice([None, U("h\0x")])
            return host, port, i, key, c

        for n in range(ctx.n(60, 300)):
            w = r.random()
            if lang == "python":
                if w < .25 or not objs:
                    o = f"o{n}"
                    h, p, i, key, c = args()
                    if drv("new", o, h, p, i, key, *([c] if c else []))["ok"]:
                        objs.append(o)
                    what = "new"
                elif w < .33:
                    o = f"o{n}"
                    drv("bare", o)
                    objs.append(o)
                    what = "bare"
                elif w < .45:
                    h, p, i, key, c = args()
                    res = drv("init", r.choice(objs), h, p, i, key, *([c] if c else []))
                    what = "init " + str(res["ok"])
                elif w < .6:
                    o = objs.pop(r.randrange(len(objs)))
                    drv("del", o)
                    what = "del"
                elif w < .68:
                    drv.send({"op": "attr", "id": r.choice(objs), "name": r.choice(["host", "port", "nothing"])})
                    what = "attr"
                elif w < .74:
                    drv(r.choice(["svc", "host"]), r.choice(objs), *r.choice([[], [None], [1, 2, 3], [U("h"), U("s")], [U("h"), 0, 0], [U("h"), 2**40]]))
                    what = "usage"
                else:
                    a = [U("x" * r.choice([0, 1, 1000, 5000, 100000]))]
                    res = drv("host", r.choice(objs), U("h"), r.choice([0, -1, 2**31 - 1]), *a, timeout=r.choice([1, 1, 0, -1, -2**31]))
                    what = "call " + str(res["ok"])
            else:
                if w < .3 or not objs:
                    o = f"o{n}"
                    h, p, i, key, c = args()
                    k2 = {"timeout": r.choice([1, 1, 0, -1]), "port": p}
                    if c:
                        k2["ciphers"] = c
                    if r.random() < .8:
                        k2["node_name"] = U("n" * r.choice([0, 1, 500, 5000]))
                    if r.random() < .8:
                        k2["svc_description"] = r.choice([U("s"), U("s" * 3000), None])
                    if drv("new", o, h, i, key, **k2)["ok"]:
                        objs.append(o)
                    what = "new"
                elif w < .35:
                    drv("raw", f"o{n}", *r.choice([[], [None], [U("c"), U("h"), 1, U("i")], [U("Net::NSCAng::Client"), None, None, None, None, None, None, None, None]]))
                    what = "raw"
                elif w < .5:
                    o = objs.pop(r.randrange(len(objs)))
                    drv("del", o)
                    what = "del"
                elif w < .6:
                    drv(r.choice(["svc", "host", "cmd"]), r.choice(objs), *r.choice([[], [None], [None, None], [U("x"), None], [0, None], [1, ["b", "00"]]]))
                    what = "usage"
                elif w < .7:
                    c = U(r.choice(["", "[", "[1", "[]", "[1]", "\n", "[1]\n", "%s%n%d", "[x] %n%s%s%s", "x" * 1010, "x" * 1023, "x" * 5000, "[123] " + "y" * 1017, "[12345678901234567890123] z"]))
                    res = drv("cmd", r.choice(objs), c)
                    what = "cmd " + str(res["ok"])
                else:
                    res = drv(r.choice(["svc", "host"]), r.choice(objs), 0, U("x" * r.choice([0, 1, 900, 985, 1000, 5000, 100000])))
                    what = "call " + str(res["ok"])
            ctx.case((lang, "life", what, n % 5))
            ctx.count("steps on objects in any state")
        drv.end()


def stalls(ctx, lang, j):
    """Servers that stall or dribble: each call returns within its limits."""
    kind, how, t = j
    r = random.Random(f"{ctx.seed}/stall{lang}{j}")
    ctx = Loose(ctx)
    limit = 2 * (t + 1) + 4
    with Hub2(ctx) as hub, Driver(ctx, lang, "plain") as drv:
        port = hub.port
        hole = None
        if kind == "BACKLOG":
            # Nobody accepts, and the queue is full: not even the TCP connection succeeds.
            hole = socket.socket()
            hole.bind(("127.0.0.1", 0))
            hole.listen(0)
            port = hole.getsockname()[1]
            fill = []
            for _ in range(4):
                s = socket.socket()
                s.setblocking(False)
                s.connect_ex(("127.0.0.1", port))
                fill.append(s)
            time.sleep(.1)
        elif kind == "SILENT":
            hole = socket.socket()
            hole.bind(("127.0.0.1", 0))
            hole.listen(8)
            port = hole.getsockname()[1]
        o = Obj(ctx, r, drv, hub, timeout=t, port=port)
        o.create()
        if kind in ("PUSH", "DATA") and r.random() < .5:
            o.call(expect="any")
        text = {"MOIN": b"MOIN 1\r\n", "PUSH": b"OKAY\r\n", "DATA": b"OKAY\r\n", "QUIT": b"OKAY\r\n", "TLS": b""}.get(kind)
        if how == "stall":
            a = ("stall", 3 * limit)
        elif how == "dribble":
            # A byte now and then, never a line end.
            a = ("frag", .3, [b"x"] * int(3 * limit / .3))
        elif how == "half":
            a = ("late", 3 * limit, b"")
        if text is not None:
            with o.plan.lock:
                o.plan.faults = {kind: [a] * 8}
        res = o.call(expect="any", limit=limit + 30)
        ctx.case((lang, "stall", kind, how, t, res["ok"]))
        ctx.count("calls against stalling servers")
        if res["ok"] and kind != "QUIT":
            raise Violation(f"{lang}: success without an answer", f"{j} {res}")
        if res["secs"] > limit:
            raise Violation(f"{lang}: a call takes longer than its timeout allows", f"{j}: {res['secs']:.1f} s with a timeout of {t} s", soft=True)
        if hole:
            hole.close()
        hub.down = True
        t0 = time.monotonic()
        drv.end()
        if time.monotonic() - t0 > 15:
            raise Violation(f"{lang}: destroying an object takes too long", f"{j}", soft=True)


def fuzz(ctx, j):
    lang, variant, k = j
    try:
        b = build.bindfuzz(lang, variant)
    except build.BuildError as e:
        ctx.count(f"protocol code not usable with stand-ins ({lang}, {variant})")
        if os.environ.get("VERIF_DEBUG"):
            print(e)
        return
    secs = ctx.n(5, 120)
    e = {x: y for x, y in os.environ.items() if not x.startswith(("ASAN", "UBSAN", "MSAN", "LSAN"))}
    e.update(ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1",
             MSAN_OPTIONS="exitcode=99")
    p = ctx.spawn([b, str(ctx.seed * 1000 + k), "100000000", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    try:
        out, err = p.communicate(timeout=secs * 4 + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        # Perhaps it waits in ways that the stand-ins do not know.
        ctx.count("blocks of scripted sessions given up")
        return
    out, err = out.decode("latin-1"), err.decode("latin-1")
    if p.returncode == 77:
        raise Violation(f"{lang}: " + first_line(out)[:120], out[-3000:] + err[-1000:])
    if p.returncode != 0 or "runtime error" in err or "Sanitizer" in err:
        raise Violation(f"{lang}: sanitizer report: {first_line(err)}", f"bindfuzz {lang} {variant} seed {ctx.seed * 1000 + k} status {p.returncode}\n{err[:5000]}")
    d = dict(x.split("=") for x in out.split() if "=" in x)
    for x in ("calls", "reads", "writes", "polls"):
        ctx.count(f"{lang} {variant} scripted {x}", int(d[x]))
    ctx.case((lang, variant, "scripted sessions", k))


def run(ctx):
    for l in ("python", "perl"):
        for v in ("asan", "plain"):
            (build.python_ext if l == "python" else build.perl_ext)(v)
    jobs = [("fuzz", (l, v, k)) for l in ("python", "perl") for v in ("asan", "msan") for k in range(ctx.n(1, 4))]
    for l in ("python", "perl"):
        jobs += [("hostile", l, k) for k in range(ctx.n(6, 80))]
        jobs += [("lifecycles", l, k) for k in range(ctx.n(5, 60))]
        jobs += [("forms", l, k) for k in range(ctx.n(2, 20))]
        jobs += [("faults", l, k) for k in range(ctx.n(4, 100))]
        jobs += [("gone", l, k) for k in range(ctx.n(1, 10))]
        st = [(kind, how, t) for kind in ("MOIN", "PUSH", "DATA") for how in ("stall", "dribble") for t in (1, 3)]
        st += [(kind, "stall", t) for kind in ("TLS", "QUIT", "BACKLOG", "SILENT") for t in (1, 3)]
        if not ctx.thorough:
            st = [s for i, s in enumerate(st) if s[2] == 1 or i % 4 == 1]
        jobs += [("stalls", l, s) for s in st]
    ctx.rng.shuffle(jobs)
    # The slow ones first.
    jobs.sort(key=lambda j: j[0] not in ("stalls", "fuzz"))

    def one(j):
        if ctx.left(70, 1200) < 0:
            return
        if j[0] == "fuzz":
            fuzz(ctx, j[1])
        elif j[0] in ("forms", "faults", "gone"):
            scenario(ctx, j[1], j[0], j[2])
        else:
            globals()[j[0]](ctx, j[1], j[2])
    one.__name__ = "scenario"
    ctx.pmap(one, jobs, 20)
