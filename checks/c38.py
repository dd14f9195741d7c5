"""C38: the client modules give back what they use.  Oracle: the heap and the descriptors of the
interpreter, weighed between rounds of the same calls, and the connections the server still has."""
import random
from bindcheck import *

TECHNIQUE = "runtime monitoring: heap and descriptor balance of the interpreters between rounds of equal call histories, open connections counted at the server"
NOTE = ("Interpreters with the Perl and Python modules repeat call histories (objects created and dropped, never used, used, refused, failed in construction, initialised "
        "again, cut off by the server at each step, timed out, called wrongly) many times.  Between equal rounds, the bytes allocated from the heap (mallinfo2 in a preloaded "
        "library, with the interpreters' own allocators turned off) and the open descriptors may not grow, and the server may not be left with connections of objects that are gone.")
RULE = "one case = one round of a call history, weighed; distinct = distinct (language, history, TLS version, length of the strings, round); all are non-trivial"
ASSUMPTIONS = ["what an interpreter or OpenSSL allocates once, in the first rounds, is not a leak", "a leak of less than 16 bytes per repetition may go unnoticed"]

LIMIT = 12           # bytes per repetition that are put down to the interpreter


class Scale:
    """Weighs an interpreter while it waits for its next order."""

    def __init__(self, drv, path):
        self.drv, self.path, self.n = drv, path, 0
        open(path, "wb").close()

    def __call__(self):
        os.kill(self.drv.p.pid, signal.SIGUSR2)
        self.n += 1
        if not wait_for(lambda: open(self.path, "rb").read().count(b"\n") >= self.n, 30):
            raise Inconclusive("the interpreter's heap could not be weighed")
        fds = len(os.listdir(f"/proc/{self.drv.p.pid}/fd"))
        return int(open(self.path, "rb").read().split()[-1]), fds


HISTORIES = ["unused", "used", "several", "kept", "refused", "badcipher", "badargs", "usage", "again", "bail", "fail", "odd", "drop", "close", "reset", "mid", "nokey", "down", "timeout",
             "toolong", "again while connected", "order"]


def one(ctx, lang, name, k):
    r = random.Random(f"{ctx.seed}/c38/{lang}/{name}/{k}")
    if lang == "perl" and name.startswith("again"):
        return
    path = os.path.join(ctx.dir("heap"), "heap")
    env = {"LD_PRELOAD": build.shim("heapshim.c"), "NSCA_HEAP": path, "PYTHONMALLOC": "malloc", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0", "PYTHONHASHSEED": "0", "PERL_HASH_SEED": "0"}
    version = ["1.2", "1.3"][k % 2]
    big = r.choice([50, 200]) if name not in ("unused", "badcipher", "again", "order") else r.choice([200, 3000, 20000])
    with Hub2(ctx, version=version) as hub, Driver(ctx, lang, "plain", env=env) as drv:
        key = b"k" * min(big, 200)
        ident = hub.add(key, b"i" * min(big, 200))
        plan = hub.plans[ident]
        shut = free_port()
        scale = Scale(drv, path)
        tmo = 20

        def new(o="o", port=None, ciphers=None, expect=True, i=None, key=key):
            i = i or (ident if name != "unused" and name != "order" else b"i" * big)
            host = "127.0.0.1"
            kk = key if name != "unused" else b"k" * big
            if lang == "python":
                res = drv("new", o, U(host), port or hub.port, U(i.decode()), U(kk.decode()), *([U(ciphers)] if ciphers else []))
            else:
                res = drv("new", o, U(host), B(i), B(kk), port=port or hub.port, timeout=tmo, node_name=B(b"n" * min(big, 400)), svc_description=B(b"s" * min(big, 400)),
                          **({"ciphers": U(ciphers)} if ciphers else {}))
            if res["ok"] != expect:
                raise Violation(f"{lang}: an object " + ("cannot be created" if expect else "is created from wrong arguments"), repr(res), soft=expect)

        def call(o="o", op=None, text=b"out" * 20, expect=True):
            op = op or r.choice(["svc", "host"])
            if lang == "python":
                res = drv(op, o, U("h"), *([U("s")] if op == "svc" else []), 0, U(text.decode()), tmo, limit=200)
            elif op == "cmd":
                res = drv(op, o, B(text), limit=200)
            else:
                res = drv(op, o, 0, B(text), limit=200)
            if expect is not None and res["ok"] != expect:
                raise Violation(f"{lang}: a call " + ("fails" if expect else "succeeds"), f"{name} {drv.log[-3:]} {res}", soft=True)
            return res

        ops = ["svc", "host"] + (["cmd"] if lang == "perl" else [])
        fault = {"bail": [("MOIN", b"BAIL no\r\n"), ("PUSH", b"BAIL no\r\n"), ("DATA", b"BAIL no\r\n")], "fail": [("MOIN", b"FAIL no\r\n"), ("PUSH", b"FAIL no\r\n"), ("DATA", b"FAIL no\r\n")],
                 "odd": [("MOIN", b"HUH\r\n"), ("PUSH", b"HUH\r\n"), ("DATA", b"x" * 1100 + b"\r\n")], "drop": [("TLS", ("drop",)), ("MOIN", ("drop",)), ("PUSH", ("drop",)), ("DATA", ("drop",))],
                 "close": [("MOIN", ("close",)), ("PUSH", ("close",)), ("DATA", ("close",))], "reset": [("TLS", ("reset",)), ("MOIN", ("reset",)), ("DATA", ("reset",))]}

        def step(i):
            """The history, once."""
            if name == "unused":
                new()
                drv("del", "o")
            elif name == "used":
                new()
                call(op=ops[i % len(ops)])
                drv("del", "o")
            elif name == "several":
                for o in "abc":
                    new(o)
                for o in "bacb":
                    call(o, ops[i % len(ops)])
                for o in ("abc", "cab", "bca")[i % 3]:
                    drv("del", o)
            elif name == "order":
                for o in "abcdefgh":
                    new(o, i=b"i" * big + b"%d" % ord(o))
                for o in ("abcdefgh", "hgfedcba", "dahgcbfe")[i % 3]:
                    drv("del", o)
            elif name == "kept":
                for op in ops:
                    call("kept", op)
            elif name == "refused":
                new(port=shut)
                call(op=ops[i % len(ops)], expect=False)
                drv("del", "o")
            elif name == "badcipher":
                new(ciphers="BOGUS" * (big // 5), expect=False)
            elif name == "badargs":
                if lang == "python":
                    drv("new", "x", U("127.0.0.1"))
                    drv("new", "x", U("127.0.0.1"), U("x"), U("i"), U("k"))
                else:
                    drv("new", "x", U("127.0.0.1"), None, B(b"k"))
                    drv("del", "x")
            elif name == "usage":
                if lang == "python":
                    drv("svc", "kept", U("h"))
                    drv("host", "kept", U("h\0"), 0)
                    drv("host", "kept", U("h"), 2**40)
                else:
                    drv("svc", "kept", 0, B(b"x\0y"))
                    drv("cmd", "kept", None)
                    drv("cmd", "kept", B(b"[x] y"))
                call("kept")
            elif name == "again":
                drv("init", "kept", U("127.0.0.1"), hub.port, U("i" * big), U("k" * big))
            elif name == "again while connected":
                drv("init", "kept", U("127.0.0.1"), hub.port, U(ident.decode()), U(key.decode()))
                call("kept")
            elif name in fault:
                kind, a = fault[name][i % len(fault[name])]
                with plan.lock:
                    plan.faults = {kind: [a] * 2}
                call("kept", ops[i // 2 % len(ops)], expect=None)
                with plan.lock:
                    plan.faults = {}
                if not call("kept", expect=None)["ok"]:
                    call("kept", expect=None)
            elif name == "mid":
                new()
                with plan.lock:
                    plan.faults = {"DATA": [("drop",)] * 2}
                call(op=ops[i % len(ops)], expect=None)
                with plan.lock:
                    plan.faults = {}
                drv("del", "o")
            elif name == "nokey":
                new(key=b"wrong")
                call(op=ops[i % len(ops)], expect=False)
                drv("del", "o")
            elif name == "down":
                call("down", ops[i % len(ops)], expect=False)
            elif name == "timeout":
                with plan.lock:
                    plan.faults = {"PUSH": [("stall", 1.5)] * 2}
                new()
                call(op=ops[i % len(ops)], expect=None)
                with plan.lock:
                    plan.faults = {}
                drv("del", "o")
            elif name == "toolong":
                call("kept", ops[i % len(ops)], b"x" * 5000, expect=None)
                call("kept")

        slow = name == "timeout"
        if slow:
            tmo = 0
        if name in ("kept", "usage", "toolong") or name.startswith("again") or name in fault:
            new("kept")
        if name == "down":
            new("down", port=shut)
        n, warm = (6, 3) if slow else (30, 15) if name in fault else (60, 30)
        if ctx.thorough and not slow:
            n *= 4
        for i in range(warm):
            step(i)
        w = [scale()]
        rounds = 4
        for j in range(rounds):
            for i in range(n):
                step(i)
            w.append(scale())
            ctx.case((lang, name, version, big, j), sample=f"{lang} {name} TLS {version}, {n} repetitions: heap {w[-2][0]} -> {w[-1][0]} bytes, descriptors {w[-2][1]} -> {w[-1][1]}")
            ctx.count("repetitions weighed", n)
        grown = [b[0] - a[0] for a, b in zip(w, w[1:])]
        if os.environ.get("VERIF_DEBUG"):
            print(lang, name, version, big, n, grown, [x[1] for x in w], flush=True)
        fds = [x[1] for x in w]
        # A lost connection's descriptor may be around until the next call.
        if all(b > a for a, b in zip(fds, fds[1:])):
            raise Violation(f"{lang}: descriptors are left open", f"{name}: {fds} after rounds of {n}; {drv.log[-4:]}")
        if all(g > max(LIMIT * n, 500) for g in grown):
            raise Violation(f"{lang}: memory is not given back", f"{name}, TLS {version}: the heap grows by {grown} bytes in rounds of {n}; {drv.log[-4:]}")
        if name in ("used", "several", "refused", "mid", "nokey"):
            # All objects are gone.
            if not wait_for(lambda: all(c.get("done") for c in hub.fs.conns), 30):
                raise Violation(f"{lang}: a connection outlives its object", f"{name}: {sum(1 for c in hub.fs.conns if not c.get('done'))} of {len(hub.fs.conns)}", soft=True)
            ctx.count("connections closed", len(hub.fs.conns))
        drv.end()


def run(ctx):
    build.python_ext("plain"), build.perl_ext("plain")
    build.shim("heapshim.c")
    jobs = [(lang, name, k) for name in HISTORIES for lang in ("perl", "python") for k in range(ctx.n(2, 6))]
    jobs.sort(key=lambda j: j[1] != "timeout")

    def scenario(j):
        if ctx.left(120, 900) > 0:
            one(ctx, *j)
    ctx.pmap(scenario, jobs, 12)
