"""C29: Python client objects are independent of each other, also across threads.  Oracles: the
identity, key and commands that reach scripted servers; ThreadSanitizer."""
import bindcheck
from bindcheck import *

TECHNIQUE = "ThreadSanitizer and AddressSanitizer on the client code with many threads; identity, key and commands seen by scripted servers compared with the object used"
NOTE = ("The protocol code (python/client.c) runs under ThreadSanitizer and AddressSanitizer with up to 16 threads that create, use, exchange and destroy objects; each key "
        "lookup is compared with the identity and key of the object in use, and each submission with what was written.  The real module in the real interpreter goes through "
        "random histories of creating (also unsuccessfully), re-initialising, using and destroying objects for different identities, keys and servers, in one thread and in "
        "several, with servers that drop connections; the commands acknowledged per identity and server are compared with the calls.")
RULE = "one case = one call, history or block of threaded operations; distinct = distinct (kind, step, threads, outcome); all are non-trivial"
ASSUMPTIONS = ["OpenSSL itself is thread-safe; the interpreter's own lock serialises calls as long as the module does not release it"]


def race(ctx, j):
    variant, n, k = j
    try:
        b = build.bindfuzz("python", variant, "bindrace.c")
    except build.BuildError as e:
        ctx.count(f"client code not usable with stand-ins ({variant})")
        if os.environ.get("VERIF_DEBUG"):
            print(e)
        return
    secs = ctx.n(4, 60)
    e = {x: y for x, y in os.environ.items() if not x.startswith(("ASAN", "UBSAN", "TSAN", "LSAN"))}
    e.update(ASAN_OPTIONS="exitcode=99:detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1", TSAN_OPTIONS="exitcode=99:halt_on_error=1")
    p = ctx.spawn([b, str(ctx.seed * 1000 + k), str(n), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    try:
        out, err = p.communicate(timeout=secs * 3 + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Violation("python: threads using different objects block each other", f"bindrace {j}", soft=True)
    out, err = out.decode("latin-1"), err.decode("latin-1")
    if p.returncode == 77:
        raise Violation("python: " + first_line(out)[:150], out[-3000:] + err[-1000:])
    if "unexpected memory mapping" in err:
        ctx.count("ThreadSanitizer not usable here")
        return
    if p.returncode != 0:
        raise Violation("python: sanitizer report: " + first_line(err), f"bindrace {j} status {p.returncode}\n{err[:6000]}")
    d = dict(x.split("=") for x in out.split() if "=" in x)
    for x, y in d.items():
        ctx.count(f"{variant} {x}", int(y))
    ctx.case(("threads", variant, n, k))


class Hist:
    """Objects of one interpreter with the servers they belong to."""

    def __init__(self, ctx, r, drv, hubs):
        self.ctx, self.r, self.drv, self.hubs = ctx, r, drv, hubs

    def obj(self, shared=False):
        r = self.r
        hub = r.choice(self.hubs)
        o = Obj(self.ctx, r, self.drv, hub, key=None if r.random() < .8 else b"key%d" % r.randrange(3))
        return o


def check_hubs(hubs, what):
    for h in hubs:
        if h.mixed:
            raise Violation("python: a connection with an identity of another object", f"{h.mixed[:5]} {what}")
        for i, p in h.plans.items():
            for e in p.ev:
                if e[1] == "DATA" and i + b"." not in e[2]:
                    raise Violation("python: a command of another object reached the server", f"{i!r}: {e[2][:300]!r}")


def history(ctx, k):
    """One thread."""
    r = random.Random(f"{ctx.seed}/hist{k}")
    hubs = [Hub2(ctx, version=v) for v in (None, "1.2")]
    # No identity is known to both servers.
    for _ in range(r.randrange(50, 90)):
        hubs[1].add(b"x")
    try:
        with Driver(ctx, "python", ["asan", "plain"][k % 2]) as drv:
            h = Hist(ctx, r, drv, hubs)
            objs = []
            for n in range(ctx.n(90, 400)):
                w = r.random()
                if w < .22 or not objs:
                    o = h.obj()
                    o.create()
                    objs.append(o)
                    what = "new"
                elif w < .35:
                    o = objs.pop(r.randrange(len(objs)))
                    drv("del", o.id)
                    what = "del"
                elif w < .45:
                    # A construction that fails.
                    drv("new", f"bad{n}", *r.choice([[U("127.0.0.1"), hubs[0].port, U("obj1"), U("x"), U("BOGUS")], [U("127.0.0.1")], [U("127.0.0.1"), U("x"), U("i"), U("k")]]))
                    what = "failing"
                elif w < .55:
                    # The same object for another identity.
                    i = r.randrange(len(objs))
                    old, o = objs[i], h.obj()
                    o.id = old.id
                    res = drv("init", o.id, U("127.0.0.1"), o.port, U(o.ident.decode()), U(o.key.decode()))
                    if not res["ok"]:
                        raise Violation("python: an object cannot be initialised again", f"{res}")
                    objs[i] = o
                    what = "init"
                elif w < .62:
                    o = r.choice(objs)
                    with o.plan.lock:
                        o.plan.faults = {r.choice(["MOIN", "PUSH", "DATA"]): [r.choice([("close",), ("reset",), b"FAIL no\r\n", b"BAIL no\r\n", b"??\r\n"])]}
                    o.call(expect="any")
                    with o.plan.lock:
                        o.plan.faults = {}
                    what = "fault"
                else:
                    o = r.choice(objs)
                    if r.random() < .1:
                        a = drv.send({"op": "attr", "id": o.id, "name": "port"})
                        b = drv.send({"op": "attr", "id": o.id, "name": "host"})
                        if a.get("val") != str(o.port) or b.get("val") != "'127.0.0.1'":
                            raise Violation("python: an object names another server", f"{a} {b} instead of {o.port}")
                    o.call()
                    what = "call"
                ctx.case(("history", what, len(objs) > 5, k % 2))
                ctx.count("history steps")
                if len(objs) > 25:
                    o = objs.pop(0)
                    drv("del", o.id)
            r.shuffle(objs)
            for o in objs:
                o.call()
            check_hubs(hubs, drv.log[-3:])
            drv.end()
            check_hubs(hubs, "end")
    finally:
        for h in hubs:
            h.close()


def threads(ctx, k):
    """Several threads: each creates, uses and destroys objects of its own and uses common ones."""
    r = random.Random(f"{ctx.seed}/thr{k}")
    hubs = [Hub2(ctx, version=v) for v in (None, "1.2")]
    for _ in range(r.randrange(50, 90)):
        hubs[1].add(b"x")
    try:
        with Driver(ctx, "python", ["plain", "asan"][k % 2]) as drv:
            h = Hist(ctx, r, drv, hubs)
            common = [h.obj().create() for _ in range(3)]
            for rnd in range(ctx.n(2, 6)):
                n = r.choice([2, 4, 8])
                jobs, marks = [], []
                for t in range(n):
                    own, q, mk = [], [], []
                    for _ in range(ctx.n(12, 30)):
                        w = r.random()
                        if w < .2 or not own:
                            o = h.obj()
                            own.append(o)
                            q.append({"op": "new", "id": o.id, "a": [U("127.0.0.1"), o.port, U(o.ident.decode()), U(o.key.decode())]})
                            mk.append(None)
                        elif w < .3:
                            o = own.pop(r.randrange(len(own)))
                            q.append({"op": "del", "id": o.id})
                            mk.append(None)
                        else:
                            o = r.choice(own if r.random() < .8 else common)
                            op = r.choice(["svc", "host"])
                            args, kw, _, text, stamped = o.make(op)
                            q.append({"op": op, "id": o.id, "a": args, "k": kw})
                            mk.append((o, text))
                    jobs.append(q)
                    marks.append(mk)
                out = drv.many(jobs)
                want = {}
                for t in range(n):
                    for q, m, res in zip(jobs[t], marks[t], out[t]):
                        if not res["ok"]:
                            raise Violation("python: an operation in a thread fails although the server is there", f"{short(q)} {bytes.fromhex(res['err'])!r}", soft=True)
                        if m:
                            o, text = m
                            want.setdefault(o.ident, []).append(text)
                        ctx.count("operations in threads")
                for hb in hubs:
                    for i, p in hb.plans.items():
                        got = sorted(STAMPED.sub(b"", e[2], count=1) for e in p.ev if e[1] == "ACK")
                        del p.ev[:]
                        w = sorted(want.pop(i, []))
                        if got != w:
                            raise Violation("python: what an object submitted in a thread is not what its server acknowledged", f"{i!r}: missing {[x for x in w if x not in got][:3]!r}, "
                                            f"unexpected {[x for x in got if x not in w][:3]!r}, {len(got)} instead of {len(w)}")
                if hubs[0].mixed or hubs[1].mixed:
                    raise Violation("python: a connection with an identity of another object", f"{hubs[0].mixed[:5]} {hubs[1].mixed[:5]}")
                ctx.case(("threads", n, rnd, k))
                ctx.count("threads", n)
            drv.end()
    finally:
        for h in hubs:
            h.close()


def run(ctx):
    for v in ("asan", "plain"):
        build.python_ext(v)
    jobs = [("race", ("tsan", n, k)) for k in range(ctx.n(1, 5)) for n in (2, 8)] + [("race", ("asan", n, k)) for k in range(ctx.n(1, 5)) for n in (4,)]
    if ctx.thorough:
        jobs += [("race", ("tsan", 16, 7)), ("race", ("tsan", 3, 8))]
    jobs += [("history", k) for k in range(ctx.n(8, 80))] + [("threads", k) for k in range(ctx.n(8, 80))]

    def one(j):
        if ctx.left(70, 1200) > 0:
            globals()[j[0]](ctx, j[1])
    one.__name__ = "scenario"
    ctx.pmap(one, jobs, 8)
