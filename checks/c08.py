"""C08: the backlog survives a missing reader and respects its limit.  Oracle: conservation over
histories of reader arrivals and departures; for the limit, an interval model of what may be discarded."""
import random, socket, threading
import flow
from nlib import *

TECHNIQUE = "runtime monitoring: conservation checker over histories of missing, arriving and departing readers"
NOTE = ("Acknowledged commands are compared with what arrives once a reader appears, over scripted and random histories of the "
        "command file (absent, regular file, directory, socket, no reader, departing reader) and backlog sizes around the limit.")
RULE = ("one case = one acknowledged command in one history; distinct = distinct (command, history); non-trivial = acknowledged "
        "while nothing was reading, or delivered after the reader came back")
ASSUMPTIONS = ["commands already handed to the kernel's pipe buffer when the last reader closes are the kernel's loss",
               "the server retries about every 10 s (judged with 20 s of slack)"]
RETRY = 30.0
MB = 1024 * 1024


def server(ctx, variant, opts, **kw):
    return Server(ctx, variant=variant, mon=True, loglevel=kw.pop("loglevel", 2), opts=opts + "\nmax_command_size = 0\ntimeout = 0", **kw)


def finish(ctx, f, tag, timeout=RETRY):
    lines, cmds, files = f.check(timeout)
    for i in f.acked:
        ctx.case((i, tag))
    ctx.count("acknowledged", len(f.acked))
    ctx.count("histories")


def log_has(srv, text):
    return wait_for(lambda: text in srv.stderr(), 5)


def late(ctx, variant, kind, sizes):
    """Something unusable, or nothing, at the path; later a pipe with a reader."""
    tag = f"late {kind} {variant} {sizes}"
    d = ctx.dir("srv")
    path = os.path.join(d, "cmd")
    keep = None
    if kind == "file":
        keep = b"not yours\n"
        open(path, "wb").write(keep)
    elif kind == "dir":
        os.mkdir(path)
    elif kind == "socket":
        us = socket.socket(socket.AF_UNIX)
        us.bind(path)
    elif kind == "link":
        keep = b"linked\n"
        open(path + ".target", "wb").write(keep)
        os.symlink(path + ".target", path)
    elif kind == "noreader":
        os.mkfifo(path)
    elif kind == "nodir":
        pass
    with server(ctx, variant, "", dir=d, fifo=False) as srv:
        f = flow.Flow(srv, tag)
        s = sess(srv.port)
        r = random.Random(tag)
        for z in sizes:
            f.push(s, b"a", z)
        if kind in ("file", "link"):
            with open(path, "rb") as fh:
                if fh.read() != keep:
                    raise Violation("a command file that is not a named pipe was written to", tag)
        # a server that cannot write must not have delivered anything anywhere
        if [e for e in srv.events() if e[0] == "W"]:
            raise Violation("something was written although there is no reader", tag)
        if kind == "file" or kind == "link" or kind == "socket":
            os.unlink(path)
        elif kind == "dir":
            os.rmdir(path)
        if kind == "noreader":
            srv.fifo = Fifo(path, create=False)
        else:
            time.sleep(r.random())
            tmp = path + ".p"
            srv.fifo = Fifo(tmp)
            os.rename(tmp, path)
        for z in sizes[:4]:
            f.push(s, b"b", z)
        finish(ctx, f, tag)
        for z in sizes[:4]:
            f.push(s, b"c", min(z, 200))
        finish(ctx, f, tag, 10)
        s.quit()
        if kind in ("link",):
            with open(path + ".target", "rb") as fh:
                if fh.read() != keep:
                    raise Violation("a command file that is not a named pipe was written to", tag)


def gone(ctx, variant, seed, cycles):
    """The reader goes away and comes back; also the pipe is replaced or turns into a file."""
    tag = f"gone {variant} {seed}"
    with server(ctx, variant, "") as srv:
        f = flow.Flow(srv, tag)
        r = random.Random(tag)
        s = sess(srv.port)
        for c in range(cycles):
            for _ in range(r.choice([1, 5, 30])):
                f.push(s, b"a", flow.sizes(r, "mixed"))
            f.check(20)
            srv.fifo.close_reader()
            how = r.choice(["same", "new", "file"]) if c else ["same", "new", "file"][seed // 3 % 3]
            n = r.choice([1, 2, 40, 200]) if c else [1, 2, r.choice([40, 200])][(seed + seed // 3) % 3]
            for _ in range(n):
                f.push(s, b"b", flow.sizes(r, r.choice(["small", "mixed"])))
            ctx.count(f"reader gone ({how}), {'one command' if n == 1 else 'several commands'} meanwhile")
            if how == "file":
                os.unlink(srv.cmdfile)
                open(srv.cmdfile, "w").close()
                time.sleep(r.random() * 12)
                if os.path.getsize(srv.cmdfile):
                    raise Violation("a command file that is not a named pipe was written to", tag)
                os.unlink(srv.cmdfile)
            elif how == "new":
                os.unlink(srv.cmdfile)
            if how != "same":
                os.mkfifo(srv.cmdfile + ".p")
                srv.fifo.path = srv.cmdfile + ".p"
                srv.fifo.open()
                os.rename(srv.cmdfile + ".p", srv.cmdfile)
            else:
                srv.fifo.open()
            f.check(RETRY)
        for _ in range(5):
            f.push(s, b"c", 100)
        finish(ctx, f, tag, 20)
        s.quit()


def huge(ctx, variant, mb):
    """A limit that is far away, however large the number is."""
    tag = f"huge {mb} {variant}"
    with server(ctx, variant, f"max_queue_size = {mb}", reading=False) as srv:
        f = flow.Flow(srv, tag)
        s = sess(srv.port)
        for z in [100] + [60000] * 45 + [200]:
            f.push(s, b"q", z)
        srv.fifo.open()
        finish(ctx, f, tag)
        s.quit()


def device(ctx, variant, kind):
    """A terminal isn't a named pipe either, although it can be written to."""
    tag = f"device {kind} {variant}"
    d = ctx.dir("srv")
    path = os.path.join(d, "cmd")
    master, slave = os.openpty()
    import tty
    tty.setraw(slave)
    if kind == "link":
        os.symlink(os.ttyname(slave), path)
    with server(ctx, variant, "", dir=d, fifo=False, args=() if kind == "link" else ("-C", os.ttyname(slave))) as srv:
        f = flow.Flow(srv, tag)
        s = sess(srv.port)
        for z in (60, 300, 60, 5000, 100):
            f.push(s, b"a", z)
        time.sleep(11.0 if ctx.thorough else .3)
        f.push(s, b"a", 100)
        got = select.select([master], [], [], .2)[0] and os.read(master, 4096)
        if got or [e for e in srv.events() if e[0] == "W"]:
            raise Violation("a command file that is not a named pipe was written to", f"{tag}: {got!r}")
        ctx.case(tag)
        if kind == "link":
            os.unlink(path)
            tmp = path + ".p"
            srv.fifo = Fifo(tmp)
            if variant == "noaio":     # a link to a named pipe is as good as the pipe
                os.symlink(tmp, path)
            else:
                os.rename(tmp, path)
            finish(ctx, f, tag)
        s.quit()
    os.close(master)
    os.close(slave)


def limit(ctx, variant, mb, plan, unlimited=False):
    """plan: list of (size, count) pushed without a reader."""
    tag = f"limit {mb} {plan} {variant}"
    with server(ctx, variant, f"max_queue_size = {mb}", reading=False) as srv:
        f = flow.Flow(srv, tag)
        s = sess(srv.port)
        lim = mb * MB
        # Interval model: the first command may or may not count towards the queue.
        first = None
        q_lo = q_hi = 0              # queue size without / with the first command
        must, may = 0, 0             # number of discards
        keep_lo = 0                  # index of the first command that has to survive
        keep_hi = 0                  # index of the first command that may survive
        uncertain = False
        for size, count in plan:
            for _ in range(count):
                i, got = f.push(s, b"q", size)
                n = len(f.acked) - 1
                if got != b"OKAY\r\n":
                    raise Violation("the server stopped acknowledging while the command file has no reader", repr(got))
                if n == 0:
                    first = i
                    q_hi = size
                    continue
                if lim and q_lo + size > lim:
                    must += 1
                    keep_lo = keep_hi = n
                    q_lo = q_hi = size
                    uncertain = False
                elif lim and q_hi + size > lim:
                    uncertain = True
                    keep_lo = n
                    q_lo += size
                    q_hi += size
                else:
                    q_lo += size
                    q_hi += size
        warned = srv.stderr().count(b"THROWING DATA AWAY")
        log = srv.stderr()
        srv.fifo.open()
        want = f.acked[keep_lo:]
        full = f.acked
        f.acked = want
        f.maybe |= set(full)
        lines, cmds, files = f.check(RETRY)
        seen = [flow.ID.match(c).group(1) for c in cmds]
        rest = [i for i in seen if i not in set(want) and i != first]
        if not uncertain and rest:
            raise Violation("part of a discarded queue was delivered", f"{len(rest)} commands, {rest[:3]!r} in {tag}")
        lost = [i for i in full if i not in set(seen)]
        if lost and not any(w in log for w in (b"[WARNING]", b"[ERROR]")):
            raise Violation("a queue was discarded without a warning", f"{len(lost)} lost in {tag}")
        if lost and b"THROW" not in log.upper() and b"discard" not in log.lower() and b"[WARNING] Queue" not in log:
            raise Violation("a queue was discarded without a warning", f"{len(lost)} lost in {tag}\n{log[-500:]!r}")
        for i in full:
            ctx.case((i, tag))
        ctx.count("histories")
        ctx.count("acknowledged", len(full))
        ctx.count("discarded", len(lost))
        ctx.count("discards expected", must)
        ctx.samples.append({"limit MB": mb, "plan": [list(p) for p in plan], "acknowledged": len(full), "lost": len(lost), "warnings": warned})
        # and it goes on
        for _ in range(3):
            f.push(s, b"r", 100)
        f.check(20)
        s.quit()


def default(ctx, full):
    """Without a setting, the limit is 1024 megabytes."""
    with server(ctx, "plain", "", reading=False, loglevel=1) as srv:
        s = sess(srv.port)
        n = 0
        pad = b"x" * (8 * MB)
        for k in range(126 if full else 80):
            c = b"[1500000000] Q;%d;" % k + pad + b"\n"
            if s.push(c) != b"OKAY\r\n":
                raise Violation("the server stopped acknowledging while the command file has no reader", f"after {n} bytes")
            n += len(c)
        if b"THROW" in srv.stderr().upper() or srv.rss() < n * 0.95:
            raise Violation("a queue within the limit was discarded", f"{n} bytes with the default limit: {srv.rss()} in use: {srv.stderr()[-300:]!r}")
        ctx.case(("default limit", n))
        if full:
            for k in range(3):
                s.push(c)
            if b"THROW" not in srv.stderr().upper() and srv.rss() > n * 0.9:
                raise Violation("the queue exceeds its limit", f"{n + 3 * len(c)} bytes with the default limit")
            ctx.case(("default limit", "exceeded"))
        ctx.count("histories")
        s.e.close()


def stalled(ctx, variant, rep):
    """A reader that exists but does not read: the backlog is bounded by the limit only."""
    tag = f"stalled {variant}"
    with server(ctx, variant, "") as srv:
        srv.fifo.pause()
        f = flow.Flow(srv, f"{tag}{rep}")
        flow.run_clients(f, 4, 300, "mixed")
        srv.fifo.resume()
        finish(ctx, f, tag, 30)


def run(ctx):
    jobs = []
    small, big = [60] * 10, [60, 5000, 60, 20000, 300] * 20
    kinds = ["none", "file", "dir", "socket", "link", "noreader"]
    for n, k in enumerate(kinds):
        for v in ("plain", "noaio") if not ctx.thorough else ("plain", "noaio", "asan", "asan-noaio"):
            jobs.append((late, (v, k, small if (n + (v == "plain")) % 2 else big)))
            if ctx.thorough:
                jobs.append((late, (v, k, big if (n + (v == "plain")) % 2 else small)))
    for n, mb in enumerate((2048, 4095, 4097, 8193, 65537, 2 ** 31 - 1, 2 ** 31 + 1, 2 ** 32 + 1)):
        jobs.append((huge, (("plain", "noaio")[n % 2], mb)))
    jobs.append((default, (ctx.thorough,)))
    jobs += [(device, ("plain", "link")), (device, ("noaio", "link")), (device, ("plain", "terminal"))]
    for seed in range(ctx.n(9, 27)):
        jobs.append((gone, (("plain", "asan", "noaio")[seed % 3], seed * (1 if ctx.thorough else 1) + 3 * (seed // 3), ctx.n(1, 4))))
    k = 32768
    plans = [(1, [(k, 30)]), (1, [(k, 31), (k - 100, 1)]), (1, [(100, 1), (k, 32)]), (1, [(100, 1), (k, 32), (60, 1), (k, 3)]),
             (1, [(k, 100)]), (0, [(60000, 100)]), (2, [(60000, 30)]), (2, [(60000, 50)]),
             (1, [(100, 1), (900000, 1), (148576, 1)]), (1, [(100, 1), (900000, 1), (148577, 1), (100, 2)]), (3, [(200000, 16), (60, 20)])]
    for n, p in enumerate(plans):
        jobs.append((limit, (("plain", "asan")[n % 2], *p)))
    for v in ("plain", "noaio"):
        jobs.append((stalled, (v, 0)))
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(60, 800) > 0 else None, jobs, 64)
    ctx.samples = ctx.samples[:12]
