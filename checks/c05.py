"""C05: every write to the pipe is atomic and consists of whole lines.  Oracle: the write
events recorded inside the server, and the byte stream seen behind a competing writer."""
import fcntl, random, threading
import flow
from nlib import *

TECHNIQUE = "runtime monitoring: trace checker on every write(2) to the pipe, with a competing writer and injected EINTR/EAGAIN"
NOTE = ("Each recorded pipe write must be whole lines of at most PIPE_BUF bytes; the reader's stream must decompose into intact "
        "lines of both writers.  Schedules and sizes are sampled around the 4096-byte limit, not enumerated.")
RULE = ("one case = one write(2) to the pipe or one competing write; distinct = distinct (length, number of lines, scenario); "
        "non-trivial = the pipe was shared, full or perturbed while it happened")
ASSUMPTIONS = ["PIPE_BUF is 4096 on this platform", "the kernel keeps writes of at most PIPE_BUF bytes atomic"]
F_SETPIPE_SZ = 1031


def foreign_writer(srv, stop, out, seed, delay):
    r = random.Random(seed)
    fd = os.open(srv.cmdfile, os.O_WRONLY)
    try:
        n = 0
        while not stop:
            size = r.choice([12, 40, 200, 1000, 3000, 4096, r.randint(12, 4096)])
            l = b"F;%d;" % n
            l += b"f" * (size - len(l) - 1) + b"\n"
            if os.write(fd, l) != len(l):
                raise Inconclusive("short write by the harness")
            out.append(l)
            n += 1
            if delay:
                time.sleep(delay)
    finally:
        os.close(fd)


def check_writes(ctx, ev, tag, tmpdir=None):
    shorts = [d for t, d in ev if t == "w" and d == b"SHORT"]
    for t, d in ev:
        if t != "W":
            continue
        ctx.case((len(d), d.count(b"\n"), tag))
        if len(d) > 4096:
            raise Violation("a write to the pipe is larger than the atomic limit", f"{len(d)} bytes in {tag}")
        if not d.endswith(b"\n"):
            raise Violation("a write to the pipe does not end with a whole line", f"{d[-80:]!r} in {tag}")
        for l in d[:-1].split(b"\n"):
            if not (flow.ID.match(l) or PF.match(l + b"\n")):
                raise Violation("a write to the pipe does not start with a whole line", f"{l[:80]!r} in {tag}")
    if shorts:
        raise Violation("a write to the pipe was cut short", f"{len(shorts)} times in {tag}")


#       variant       clients  n   kind     how          reader    ctl                 small pipe, foreign delay
MIXES = [
    ("plain", 6, 60, "small", "pipeline", "slow", "", True, 0.0005),
    ("asan", 3, 50, "edge", "lockstep", "fast", "", False, 0.002),
    ("plain", 6, 60, "edge", "pipeline", "stutter", "eagain=3", True, 0.0),
    ("plain", 8, 40, "mixed", "chunked", "stutter", "aiodelay=20", True, 0.001),
    ("asan-noaio", 4, 40, "edge", "pipeline", "stutter", "write=short", True, 0.001),
    ("asan", 6, 60, "small", "pipeline", "stutter", "eintr=2", True, 0.0),
    ("plain", 2, 120, "near", "lockstep", "stutter", "", True, 0.0),
    ("plain", 6, 80, "pack", "pipeline", "slow", "eagain=2", False, None),
    ("noaio", 6, 60, "small", "pipeline", "stutter", "eintr=2 eagain=3", True, 0.0),
]


def scenario(ctx, mix, rep):
    variant, n, count, kind, how, reader, ctl, small, fdelay = mix
    tag = f"{mix}"
    with Server(ctx, variant=variant, mon=True, loglevel=1, opts="max_command_size = 0") as srv:
        if small:
            fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, 4096)
        srv.set_ctl(ctl)
        f = flow.Flow(srv, f"{ctx.seed}{mix}{rep}")
        stop, foreign, ferr, threads = [], [], [], []
        if fdelay is not None:
            def fw():
                try:
                    foreign_writer(srv, stop, foreign, rep, fdelay)
                except Exception as e:
                    ferr.append(e)
            threads.append(threading.Thread(target=fw, daemon=True))
        if reader == "slow":
            srv.fifo.chunk, srv.fifo.delay = 900, 0.0005
        if reader == "stutter":
            srv.fifo.chunk = 1500

            def stutter():
                r = random.Random(rep)
                while not stop:
                    srv.fifo.pause()
                    time.sleep(r.random() * 0.02)
                    srv.fifo.resume()
                    time.sleep(r.random() * 0.01)
            threads.append(threading.Thread(target=stutter, daemon=True))
        for t in threads:
            t.start()
        k = {"near": "near", "pack": "pack"}.get(kind, kind)
        flow.run_clients(f, n, count, k, how)
        stop.append(1)
        srv.fifo.resume()
        srv.fifo.delay, srv.fifo.chunk = 0.0, 65536
        for t in threads:
            t.join(30)
        srv.fifo.resume()
        if ferr:
            raise Inconclusive(f"foreign writer: {ferr[0]!r}")
        mine = set(foreign)
        f.foreign = mine
        lines, cmds, files = f.check(40)
        raw, _ = split_stream(srv.fifo.snapshot())
        seen = [l for l in raw if l.startswith(b"F;")]
        if sorted(seen) != sorted(foreign):
            bad = [l for l in seen if l not in mine]
            raise Violation("another writer's line was damaged", repr((bad or seen)[0][:200]) + f" in {tag}")
        check_writes(ctx, srv.events(), tag)
        for l in foreign:
            ctx.case(("F", len(l), tag))
        ctx.count("competing writes", len(foreign))
        ctx.count("acknowledged", len(f.acked))
        ctx.count("spool files", len(files))
        ev = srv.events()
        ctx.count("pipe writes", sum(1 for e in ev if e[0] == "W"))
        ctx.count("pipe writes of several lines", sum(1 for e in ev if e[0] == "W" and e[1].count(b"\n") > 1))
        ctx.count("failed or postponed writes", sum(1 for e in ev if e[0] == "w"))
        ctx.count("writes of 4000..4096 bytes", sum(1 for e in ev if e[0] == "W" and len(e[1]) >= 4000))
        ctx.samples.append({"mix": list(mix), "longest write": max([len(e[1]) for e in ev if e[0] == "W"], default=0)})


def run(ctx):
    mixes = [(m, i) for i in range(ctx.n(1, 15)) for m in MIXES]
    ctx.pmap(lambda a: scenario(ctx, *a) if ctx.left(80, 800) > 0 else None, mixes, 5)
    ctx.samples = ctx.samples[:12]
