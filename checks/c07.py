"""C07: spool files are complete, private and referenced once.  Oracle: a monitor on the reading
end of the pipe that examines the file the moment its reference is read, and again at the end."""
import fcntl, random, threading
import flow
from c05 import F_SETPIPE_SZ
from nlib import *

TECHNIQUE = "runtime monitoring: online monitor at the pipe's reader with fault injection into spool file creation and writing"
NOTE = ("Each reference is checked when it is read: existence, mode, owner, directory, completeness (compared with the end state and "
        "with what was acknowledged).  Failures of mkstemp, aio_write, write and of its completion are injected; batches are sampled.")
RULE = ("one case = one spool file or one injected failure; distinct = distinct (scenario, batch size class); non-trivial = the "
        "file was examined at the time its reference was read")
ASSUMPTIONS = ["the spool file's completeness is judged when its reference reaches the reader"]


class Watch:
    """Examines spool files as soon as the pipe mentions them."""

    def __init__(self, srv):
        self.srv, self.buf, self.seen, self.bad = srv, b"", {}, []
        srv.fifo.on_data = self.data

    def lines(self, ls):
        for l in ls:
            if b"PROCESS_FILE" not in l:
                continue
            m = re.match(rb"^\[(\d+)\] PROCESS_FILE;(.*);1\n$", l)
            if not m:
                self.bad.append(("a spool file is referenced in a form that does not ask for its deletion or is no valid command", l))
                continue
            p = m.group(2)
            if abs(int(m.group(1)) - time.time()) > 60:
                self.bad.append(("the reference to a spool file has a wrong timestamp", l))
            if p in self.seen:
                self.bad.append(("a spool file is referenced more than once", l))
                continue
            try:
                st = os.lstat(p)
                with open(p, "rb") as f:
                    c = f.read()
            except OSError as e:
                self.bad.append(("a referenced spool file does not exist", l + str(e).encode()))
                continue
            self.seen[p] = (st, c)
            if not c or not c.endswith(b"\n"):
                self.bad.append(("a spool file was referenced before it held the complete batch", b"%s: %d bytes" % (p, len(c))))
            else:
                self.lines(l + b"\n" for l in c[:-1].split(b"\n"))

    def data(self, d):
        self.buf += d
        ls, self.buf = split_stream(self.buf)
        self.lines(ls)

    def judge(self, ctx, tag, failing=False):
        d = os.path.realpath(self.srv.tmpdir).encode()
        for what, l in self.bad:
            raise Violation(what, f"{l!r} in {tag}")
        for p, (st, c) in self.seen.items():
            if os.path.realpath(os.path.dirname(p)) != d:
                raise Violation("a spool file is not in the configured directory", f"{p!r}, {d!r}")
            if not stat.S_ISREG(st.st_mode) or stat.S_IMODE(st.st_mode) != 0o600 or st.st_uid != os.getuid():
                raise Violation("a spool file is not private to the server's user", f"{p!r} mode {oct(st.st_mode)} in {tag}")
            with open(p, "rb") as f:
                if f.read() != c:
                    raise Violation("a spool file was referenced before it held the complete batch", f"{p!r} in {tag}")
            ctx.case((tag, len(c).bit_length(), c.count(b"\n").bit_length()))
        left = {os.path.join(self.srv.tmpdir, f).encode() for f in os.listdir(self.srv.tmpdir)} - set(self.seen)
        if left and not failing:
            raise Violation("a spool file was written but never referenced", f"{sorted(left)[:3]!r} in {tag}", soft=True)
        ctx.count("spool files examined", len(self.seen))


def batches(f, srv, r, n, size="mixed"):
    ss = [(sess(srv.port), b"s%d" % k) for k in range(3)]
    for _ in range(n):
        how = r.random()
        if how < 0.4:
            srv.fifo.pause()
        for _ in range(r.choice([1, 2, 15, 40])):
            s, name = r.choice(ss)
            f.push(s, name, flow.sizes(r, r.choice(["edge", size, "small", "large" if how < 0.1 else "small"])))
        srv.fifo.resume()
    for s, _ in ss:
        s.quit()


def normal(ctx, variant, ctl, umask, slash, rep):
    tag = f"normal {variant} {ctl} umask {umask:o}"
    d = ctx.dir("srv")
    tmpd = os.path.join(d, "spool dir;x" if slash else ("spool", "s", "/".join(["d" * 60] * 2), "/".join(["long" * 25] * 8))[DIRS.index((variant, ctl)) % 4])
    os.makedirs(tmpd)
    opts = "max_command_size = 0"
    with Server(ctx, variant=variant, mon=True, loglevel=1, opts=opts, dir=d, temp=tmpd, preexec=lambda: os.umask(umask)) as srv:
        w = Watch(srv)
        if rep % 2:
            fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, 4096)
        srv.set_ctl(ctl)
        f = flow.Flow(srv, f"{ctx.seed}{tag}{rep}")
        batches(f, srv, f.r, 12)
        f.check(40)
        w.judge(ctx, tag)
        for p, (st, c) in w.seen.items():
            if rep == 0 and len(ctx.samples) < 6:
                ctx.samples.append({"file": p, "bytes": len(c), "lines": c.count(b"\n"), "scenario": tag})


def failing(ctx, variant, fault, rep):
    """Creation or writing fails for a while: no reference, the server goes on."""
    tag = f"{fault} {variant}"
    with Server(ctx, variant=variant, mon=True, loglevel=3, opts="max_command_size = 0") as srv:
        w = Watch(srv)
        f = flow.Flow(srv, f"{ctx.seed}{tag}{rep}")
        moved = srv.tmpdir + ".away"
        s = sess(srv.port)
        for rnd in range(3):
            before = set(w.seen)
            if fault == "gone":
                os.rename(srv.tmpdir, moved)
            elif fault == "readonly":
                os.rename(srv.tmpdir, moved)
                open(srv.tmpdir, "w").close()
            else:
                srv.set_ctl(fault)
            nfail = len(f.acked)
            for _ in range(3):
                f.push(s, b"x", f.r.choice([5000, 4097, 20000]))
                time.sleep(0.02)
            # a small command goes through all the same
            i, got = f.push(s, b"y", 60)
            ok = wait_for(lambda: i in [m.group(1) for m in map(flow.ID.match, split_stream(srv.fifo.snapshot())[0]) if m], 10)
            srv.check_alive(f"server died after {fault}")
            if not ok:
                raise Violation("the server no longer delivers commands after a failed spool file", tag, soft=True)
            # and the failed batch is not referenced, whole or in part
            new = set(w.seen) - before
            for p in new:
                ids = [m.group(1) for m in map(flow.ID.match, split_stream(w.seen[p][1])[0]) if m]
                raise Violation("a reference to a spool file was issued although writing it failed", f"{p!r} with {ids!r} in {tag}")
            for what, l in w.bad:
                raise Violation(what, f"{l!r} in {tag}")
            ctx.case((tag, rnd), sample={"injected": fault, "variant": variant} if rnd == 0 else None)
            ctx.count("injected failures", 3)
            f.acked[nfail:-1] = []      # lost to the injected failure, or still being retried
            f.maybe |= set(f.sent)
            if fault in ("gone", "readonly"):
                if fault == "readonly":
                    os.unlink(srv.tmpdir)
                os.rename(moved, srv.tmpdir)
            else:
                srv.set_ctl("")
            # afterwards spooling works again
            for _ in range(3):
                f.push(s, b"z", f.r.choice([5000, 30000]))
            f.check(20)
        s.quit()
        w.judge(ctx, tag, failing=True)
        fds = [t for t in srv.fds().values() if "/nsca." in t]
        if fds:
            raise Violation("descriptors of spool files stay open", f"{fds!r} in {tag}", soft=True)


def behind(ctx, variant, fault, delay):
    """A spool file fails while more than a pipe buffer's worth has queued up behind it: that is
    delivered once the fault is over, with nobody sending another command."""
    tag = f"behind {fault} {variant} {delay}"
    with Server(ctx, variant=variant, mon=True, loglevel=3, opts="max_command_size = 0") as srv:
        w = Watch(srv)
        f = flow.Flow(srv, f"{ctx.seed}{tag}")
        s = sess(srv.port)
        for rnd in range(2):
            srv.set_ctl(f"aiodelay={delay} {fault}")
            lost, _ = f.push(s, b"x", f.r.choice([5000, 20000]))
            time.sleep(0.05)
            srv.set_ctl("")          # what is under way keeps its fate; nothing later fails
            ids = []
            for _ in range(f.r.choice([1, 2, 5])):
                ids.append(f.push(s, b"y", f.r.choice([4500, 9000, 30000]))[0])
            for _ in range(f.r.choice([0, 3])):
                ids.append(f.push(s, b"y", 60)[0])
            f.r.shuffle(ids)
            def there():
                have = {m.group(1) for m in map(flow.ID.match, split_stream(srv.fifo.snapshot())[0]) if m}
                for p, (st, c) in list(w.seen.items()):
                    have |= {m.group(1) for m in map(flow.ID.match, split_stream(c)[0]) if m}
                return all(i in have for i in ids)
            if not wait_for(there, 10 + delay / 1000):
                srv.check_alive(f"server died after {fault}")
                raise Violation("commands behind a failed spool file are stuck", f"{len(ids)} commands in {tag}, round {rnd}", soft=True)
            for what, l in w.bad:
                raise Violation(what, f"{l!r} in {tag}")
            ctx.case((tag, rnd))
            ctx.count("commands delivered after a failed spool file", len(ids))
        s.quit()
        srv.check_alive(f"server died after {fault}")


DIRS = [(v, c) for c in ("", "aiodelay=40", "write=short", "write=eintr", "eintr=3") for v in ("plain", "noaio", "asan-noaio", "asan")]


def run(ctx):
    jobs = []
    for rep in range(ctx.n(1, 12)):
        for v in ("plain", "asan", "asan-noaio", "noaio"):
            for ctl in (("", "aiodelay=40") if "noaio" not in v else ("", "write=short", "write=eintr", "eintr=3")):
                for um in (0, 0o22, 0o77) if ctx.thorough or v == "plain" else (0o22,):
                    jobs.append((normal, (v, ctl, um, um == 0, rep + (um == 0))))
            for fault in (("mkstemp=fail", "gone", "readonly", "aio=fail", "aio=eio", "aio=short") if "noaio" not in v else
                          ("mkstemp=fail", "gone", "readonly", "write=fail")):
                jobs.append((failing, (v, fault, rep)))
            if "noaio" not in v:
                for fault in ("aio=eio", "aio=short", ""):
                    jobs.append((behind, (v, fault, 400 + 100 * (rep % 8))))
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(70, 800) > 0 else None, jobs, 12)
    ctx.samples = ctx.samples[:12]
