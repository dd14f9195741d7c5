"""C35: end to end, over a network that misbehaves.  Oracle: the exit statuses and exceptions of real
clients against what a reader of the real server's command pipe got."""
import random, threading
import bind, cl
from bind import B, U, Driver, result
from nlib import *

TECHNIQUE = "runtime monitoring: conservation and order checker across real clients, a fault-injecting network and the real server's command pipe"
NOTE = ("Concurrent send_nsca runs and calls of the Perl and Python modules submit uniquely marked commands (some of which the server has to refuse) through a proxy that fragments, delays, cuts, resets, corrupts or "
        "stalls their connections at random points to the real server (AIO and not, sanitized and not), whose reader stalls now and then.  Afterwards, every outcome is compared with the "
        "contents of the pipe and of the spool files.")
RULE = ("one case = one run of send_nsca or one call of a module, judged against the pipe; distinct = distinct (client, fault, position, input); "
        "non-trivial = the outcome was compared with what had been delivered")
ASSUMPTIONS = ["a call of a module makes at most two attempts, so that its command may be delivered twice if the acknowledgement of the first one was lost",
               "commands queued in memory are lost when the server is stopped; it keeps running here"]

AUTH = "".join(f'authorize "{n}" {{\n password = "{n}-key"\n commands = "[^!]*"\n}}\n' for n in ("shell", "perl", "python"))


class Net(threading.Thread):
    """Forwards connections to the server; each with a plan of its own."""

    def __init__(self, to, seed):
        super().__init__(daemon=True)
        self.to, self.r, self.off, self.lock = to, random.Random(seed), False, threading.Lock()
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(128)
        self.port = self.s.getsockname()[1]
        self.faults = {}
        self.calm = False
        self.start()

    def plan(self):
        r = self.r
        if self.calm:
            return ("pass", 0, 0, None)
        w = r.random()
        kind = "pass" if w < .35 else "pieces" if w < .5 else r.choice(["cut", "reset", "flip", "stall", "half", "refuse", "dup"])
        pos = r.choice([r.randrange(0, 100), r.randrange(0, 600), r.randrange(0, 1500), r.randrange(0, 4000), r.randrange(0, 40000)])
        return (kind, pos, r.randrange(2), random.Random(r.random()))

    def run(self):
        while not self.off:
            p = select.poll()
            p.register(self.s, select.POLLIN)
            if not p.poll(100):
                continue
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            with self.lock:
                pl = self.plan()
                self.faults[pl[0]] = self.faults.get(pl[0], 0) + 1
            threading.Thread(target=self.forward, args=(c, pl), daemon=True).start()

    def forward(self, c, plan):
        kind, hit, side, r = plan
        s = None
        try:
            if kind == "refuse":
                return
            s = socket.create_connection(("127.0.0.1", self.to), 10)
            for x in (c, s):
                x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            pos = [0, 0]
            p = select.poll()
            p.register(c, select.POLLIN)
            p.register(s, select.POLLIN)
            ends = [c, s]
            open_ = 2
            while open_:
                for fd, e in p.poll(60000) or [(None, 0)]:
                    if fd is None:
                        return
                    k = 0 if fd == c.fileno() else 1
                    src, dst = ends[k], ends[1 - k]
                    d = src.recv(65536 if kind != "pieces" else r.choice([1, 2, 5, 100, 1000, 65536]))
                    if not d:
                        p.unregister(fd)
                        open_ -= 1
                        try:
                            dst.shutdown(socket.SHUT_WR)
                        except OSError:
                            return
                        continue
                    at = pos[k]
                    pos[k] += len(d)
                    if k == side and at <= hit < pos[k] and kind not in ("pass", "pieces"):
                        n = hit - at
                        if kind == "flip":
                            b = bytearray(d)
                            b[n] ^= 1 << r.randrange(8)
                            d = bytes(b)
                        elif kind == "dup":
                            d = d + d[n:]
                        else:
                            dst.sendall(d[:n])
                            if kind == "stall":
                                time.sleep(r.choice([.2, .5, 4]))
                                return
                            if kind == "half":
                                dst.shutdown(socket.SHUT_WR)
                                time.sleep(.3)
                                return
                            if kind == "reset":
                                for x in ends:
                                    x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                            return
                    if kind == "pieces" and r.random() < .1:
                        time.sleep(r.choice([.001, .01, .03]))
                    dst.sendall(d)
        except OSError:
            pass
        finally:
            c.close()
            if s:
                s.close()

    def close(self):
        self.off = True
        self.s.close()


class Book:
    """What was submitted, and with what outcome."""

    def __init__(self):
        self.lock, self.runs, self.calls = threading.Lock(), [], []


def old_tls(ctx):
    d = ctx.dir("ssl")
    with open(os.path.join(d, "openssl.cnf"), "w") as f:
        f.write("openssl_conf = a\n[a]\nssl_conf = b\n[b]\nsystem_default = c\n[c]\nMaxProtocol = TLSv1.2\n")
    return {"OPENSSL_CONF": os.path.join(d, "openssl.cnf")}


def shell(ctx, net, book, seed, who, runs, cnf):
    r = random.Random(seed)
    for n in range(runs):
        raw = r.random() < .4
        k = r.choice([0, 1, 1, 2, 3, 10, 40])
        recs = []
        for j in range(k):
            i = b"%s.%d.%d" % (who, n, j)
            pad = r.choice([b"", b"no!", b"x" * 13000] if r.random() < .03 else [b"", b"ok", b"a;b|c=1;2", b"back\\slash", b"x" * r.choice([10, 300, 1000, 3900, 4050, 4090, 9000]), b"\xe4\xff"])
            if raw:
                recs.append((b"[1500000000] " if r.random() < .5 else b"") + b"CMD_" + i + b";" + pad)
            else:
                recs.append(b"\t".join([b"CMD_" + i] + [b"service"] * r.randrange(2) + [b"%d" % r.randrange(4), pad]))
        sep = b"\n" if raw else b"\x17"
        data = sep.join(recs) + (sep if recs and r.random() < .5 else b"")
        if not raw and not recs:
            data = b""
        want, malformed = cl.meaning(data, raw)
        parts = [data]
        if r.random() < .3 and data:
            c = r.randrange(len(data))
            parts = [data[:c], r.choice([.0, .02]), data[c:]]
        res = cl.send_nsca(ctx, (["-C"] if raw else []) + r.choice([[], ["-v"], ["-S"]]), parts, cl.conf(b"shell", net.port, b"shell-key", timeout=2), limit=60,
                           variant=r.choice(["plain", "asan"]), env=r.choice([{}, cnf]), how=r.choice(["pipe", "file"]))
        if res.san:
            raise Violation("sanitizer report: " + first_line(res.san), res.san[:5000])
        if res.timed_out:
            raise Violation("send_nsca did not end", f"{res.argv} {res.err[-600:]!r}", soft=True)
        with book.lock:
            book.runs.append((who, n, want, res, net.calm))


def module(ctx, net, book, seed, lang, who, calls, cnf):
    r = random.Random(seed)

    class Loose:
        judge = False

        def __getattr__(self, n):
            return getattr(ctx, n)
    with Driver(Loose(), lang, "plain", env=r.choice([{}, cnf])) as drv:
        have = False
        for n in range(calls):
            if not have or r.random() < .25:
                if lang == "python":
                    have = drv("new", "o", U("127.0.0.1"), net.port, U("python"), U("python-key"))["ok"]
                else:
                    have = drv("new", "o", U("127.0.0.1"), B(b"perl"), B(b"perl-key"), port=net.port, timeout=2)["ok"]
                if not have:
                    raise Violation(f"{lang}: an object cannot be created", str(drv.log[-1]), soft=True)
            host = b"CMD_%s.%d" % (who, n)
            out = r.choice([b"ok", b"x" * r.choice([1, 200, 800]), b"a b%s"]) + b"!" * (r.random() < .06)
            svc = r.choice([None, b"svc"])
            rc = r.randrange(4)
            text = result(host, svc, rc, out) + b"\n"
            if lang == "python":
                a = [U(host.decode())] + ([U("svc")] if svc else []) + [rc, U(out.decode())]
                kw = {"timeout": 2}
            else:
                a, kw = [rc, B(out)], {"node_name": B(host), **({"svc_description": B(svc)} if svc else {})}
            op = "svc" if svc else "host"
            if lang == "perl" and r.random() < .3:
                op, a, kw, text = "cmd", [B(host + b";" + out)], {}, host + b";" + out + b"\n"
            calm = net.calm
            res = drv(op, "o", *a, limit=90, **kw)
            with book.lock:
                book.calls.append((lang, who, n, text, res, calm))
        drv.end()


LIMIT = 12000


def refused(c):
    """Is the server to refuse this command (text without a timestamp that will be added)?"""
    return b"!" in c or len(c) + 13 > LIMIT


MARK = re.compile(rb"CMD_([a-z]\w*)\.(\d+)(?:\.(\d+))?(?=[;\n])")


def world(ctx, variant, seed):
    """A world of clients and one server."""
    r = random.Random(f"{ctx.seed}/world{seed}")
    with Server(ctx, auth=AUTH, variant=variant, mon=True, loglevel=r.choice([0, 3]), opts=f"max_command_size = {LIMIT}\ntimeout = {r.choice([0, 3, 10])}") as srv:
        srv.set_ctl(r.choice(["", "", "eagain=4 eintr=3", "aiodelay=20"]))
        net = Net(srv.port, f"{ctx.seed}/{seed}")
        book, cnf, stop = Book(), old_tls(ctx), threading.Event()

        def reader():
            while not stop.is_set():
                stop.wait(r.choice([.05, .2, .5]))
                srv.fifo.pause()
                stop.wait(r.choice([.01, .1, .5]))
                srv.fifo.resume()
        jobs = [lambda k=k: shell(ctx, net, book, f"{ctx.seed}/{seed}/s{k}", b"s%dx" % k, ctx.n(24, 60), cnf) for k in range(4)]
        jobs += [lambda k=k, l=l: module(ctx, net, book, f"{ctx.seed}/{seed}/{l}{k}", l, b"%s%dx" % (l.encode(), k), ctx.n(60, 120), cnf) for l in ("perl", "python") for k in range(2)]
        rt = threading.Thread(target=reader, daemon=True)
        rt.start()
        try:
            ctx.pmap(lambda j: j(), jobs, len(jobs))
            # A quiet network at the end: everything works.
            net.calm = True
            jobs = [lambda: shell(ctx, net, book, f"{ctx.seed}/{seed}/e", b"ex", 2, cnf)]
            jobs += [lambda l=l: module(ctx, net, book, f"{ctx.seed}/{seed}/e{l}", l, b"e%s" % l.encode(), 2, cnf) for l in ("perl", "python")]
            ctx.pmap(lambda j: j(), jobs, len(jobs))
        finally:
            stop.set()
            rt.join()
            net.close()
        srv.check_alive()
        judge(ctx, srv, book, net, f"world {seed} {variant}")


def judge(ctx, srv, book, net, tag):
    def got():
        lines, rest = split_stream(srv.fifo.snapshot())
        return expand(lines, False)
    last, t = -1, time.monotonic()
    while time.monotonic() - t < 20:           # until nothing more comes
        n = len(srv.fifo.snapshot())
        if n == last and not needs(book, got()[0]):
            break
        last = n
        time.sleep(.25)
    cmds, files, bad = got()
    if bad:
        raise Violation("a referenced spool file is not there or not whole", f"{tag} {bad[:3]}")
    by = {}
    for pos, c in enumerate(cmds):
        m = MARK.search(c)
        if not m:
            raise Violation("something in the pipe that no client submitted", f"{tag} {c[:300]!r}")
        by.setdefault((m[1], int(m[2])), []).append((int(m[3]) if m[3] else None, c, pos))
    for who, n, want, res, calm in book.runs:
        mine = by.pop((who, n), [])
        what = f"{tag}, run {who.decode()}.{n}: status {res.rc}, {len(want)} commands, {len(mine)} delivered; {res.err[-300:]!r}"
        ids = sorted(x[0] for x in mine)
        if res.rc == 0 and ids != list(range(len(want))):
            raise Violation("send_nsca reported success, but its commands did not arrive exactly once", f"{what} {ids[:50]}")
        if ids != list(range(len(ids))):
            raise Violation("what a failed run of send_nsca delivered is no prefix of its input", f"{what} {ids[:50]}")
        for j, c, pos in mine:
            if not cl.same(c, want[j], res.t0, res.t1):
                raise Violation("a delivered command is not the one of the input", f"{what}\nwant {want[j]!r:.500}\ngot {c!r:.500}")
        bad = next((j for j, (stamp, text) in enumerate(want) if refused(text)), None)
        if bad is not None:
            if len(mine) > bad:
                raise Violation("a command that the server has to refuse was delivered", what)
            if res.rc == 0:
                raise Violation("send_nsca reported success although a command had to be refused", what)
            ctx.count("runs with a refused command")
        elif calm and res.rc != 0:
            raise Violation("send_nsca fails although nothing disturbs it", what, soft=True)
        if res.rc not in (0, 1) or res.rc and not res.err.strip():
            raise Violation("send_nsca ended oddly", what)
        ctx.case((who, n, res.rc, len(want), tag))
        ctx.count("send_nsca runs, status 0" if res.rc == 0 else "send_nsca runs, failed")
        ctx.count("commands delivered", len(mine))
        if res.rc and mine:
            ctx.count("failed runs with a part delivered")
    for lang, who, n, text, res, calm in book.calls:
        mine = by.pop((who, n), [])
        what = f"{tag}, call {who.decode()}.{n}: {'success' if res['ok'] else res['err'][-300:]!r}; delivered {len(mine)} times"
        if res["ok"] and not mine:
            raise Violation(f"{lang}: success, but the command did not arrive", what)
        if len(mine) > 2:
            raise Violation(f"{lang}: a command arrived more often than it can have been submitted", what)
        for j, c, pos in mine:
            if not bind.same(c, text, res["t0"], res["t1"], True):
                raise Violation(f"{lang}: a delivered command is not the one asked for", f"{what}\nwant {text!r:.500}\ngot {c!r:.500}")
        if refused(text):
            if mine or res["ok"]:
                raise Violation(f"{lang}: a command that the server has to refuse was delivered, or reported as such", what)
            ctx.count("calls with a refused command")
        elif calm and not res["ok"]:
            raise Violation(f"{lang}: a call fails although nothing disturbs it", what, soft=True)
        ctx.case((lang, who, n, res["ok"], tag))
        ctx.count(f"{lang} calls, success" if res["ok"] else f"{lang} calls, failed")
        ctx.count("commands delivered", len(mine))
        if len(mine) == 2:
            ctx.count("delivered by both attempts")
    if by:
        raise Violation("something in the pipe that no client submitted", f"{tag} {list(by.items())[0]!r:.500}")
    for k, v in net.faults.items():
        ctx.count(f"connections: {k}", v)


def needs(book, cmds):
    have = {}
    for c in cmds:
        m = MARK.search(c)
        if m:
            k = (m[1], int(m[2]))
            have[k] = have.get(k, 0) + 1
    return any(res.rc == 0 and have.get((who, n), 0) < len(want) for who, n, want, res, _ in book.runs) \
        or any(res["ok"] and (who, n) not in have for _, who, n, _, res, _ in book.calls)


def run(ctx):
    worlds = [(("plain", "noaio", "asan", "plain")[k % 4], k) for k in range(ctx.n(8, 80))]
    ctx.pmap(lambda w: world(ctx, *w) if ctx.left(75, 800) > 0 else None, worlds, 4)
