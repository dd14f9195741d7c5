"""C04: acknowledged commands arrive exactly once and intact.  Oracle: conservation between
the OKAYs the clients saw and the lines read from the pipe and the spool files it references."""
import fcntl, random, threading
import flow
from nlib import *
from c05 import F_SETPIPE_SZ

TECHNIQUE = 'runtime monitoring: conservation checker (acknowledged = delivered) under stress and injected I/O faults'
NOTE = 'Every command carries an identifier; exactly-once and byte equality are checked over runs with concurrent clients, slow/paused readers, EINTR/EAGAIN/short/delayed writes. Schedules are sampled, not enumerated.'
RULE = ("one case = one submission accounted for; distinct = distinct command text within distinct (reader, perturbation, "
        "client) mixes; non-trivial = every command carries its own identifier and is compared byte for byte")
ASSUMPTIONS = ["the process reading the pipe is the check itself", "no crash of the machine"]

MIXES = [
    # variant, clients, commands each, sizes, how, reader, ctl
    ("plain", 8, 120, "small", "lockstep", "fast", ""),
    ("asan", 4, 60, "mixed", "lockstep", "fast", ""),
    ("plain", 8, 60, "mixed", "pipeline", "paused", ""),
    ("asan", 3, 40, "edge", "pipeline", "fast", "aiodelay=30"),
    ("plain", 6, 80, "small", "pipeline", "slow", "eintr=3 eagain=4"),
    ("asan-noaio", 4, 60, "mixed", "lockstep", "fast", ""),
    ("noaio", 6, 50, "mixed", "pipeline", "paused", "write=short"),
    ("plain", 6, 40, "large", "chunked", "fast", "aiodelay=100"),
    ("asan", 4, 100, "small", "pipeline", "paused", "eintr=2"),
    ("plain", 10, 60, "small", "pipeline", "paused", "aiodelay=200 eagain=3"),
    ("noaio", 4, 60, "edge", "chunked", "slow", "eintr=5 write=eintr"),
    ("plain", 5, 50, "edge", "lockstep", "stutter", "aiodelay=10"),
    *[("plain", 2, n, "small", "pipeline", "brimful", "") for n in (20, 40, 60, 80)],
]


def scenario(ctx, mix, rep):
    variant, n, count, kind, how, reader, ctl = mix
    tmo = 40
    with Server(ctx, variant=variant, mon=True, loglevel=1, opts="max_command_size = 0\ntimeout = 30") as srv:
        srv.set_ctl(ctl)
        f = flow.Flow(srv, f"{ctx.seed}{mix}{rep}")
        if reader == "brimful":
            # a pipe of one page only: what does not fit is more often larger than the room left
            fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, 4096)
            srv.fifo.pause()
        if reader == "slow":
            srv.fifo.chunk, srv.fifo.delay = 700, 0.001
        elif reader == "paused":
            srv.fifo.pause()
        stop = []
        if reader == "stutter":
            def stutter():
                r = random.Random(rep)
                while not stop:
                    srv.fifo.pause()
                    time.sleep(r.random() * 0.05)
                    srv.fifo.resume()
                    time.sleep(r.random() * 0.03)
            t = threading.Thread(target=stutter, daemon=True)
            t.start()
        # sessions that end badly in the middle
        r = f.r
        for _ in range(6):
            s = sess(srv.port)
            size = flow.sizes(r, "mixed")
            f.cut(s, b"cut", size, r.choice([0, 1, size // 2, size - 1, size - 1]), rst=r.random() < 0.5)
        flow.run_clients(f, n, count, kind, how)
        for _ in range(4):
            s = sess(srv.port)
            size = flow.sizes(r, "mixed")
            f.cut(s, b"cut", size, size, rst=False)
        if reader in ("paused", "brimful"):
            time.sleep(0.3)
            srv.fifo.resume()
        if reader == "stutter":
            stop.append(1)
            t.join()
            srv.fifo.resume()
        if reader == "slow":
            srv.fifo.delay = 0.0
        lines, cmds, files = f.check(tmo)
        # more through the same server, now quiet
        srv.set_ctl("")
        flow.run_clients(f, 2, 20, "small")
        lines, cmds, files = f.check(tmo)
        for c in f.acked:
            ctx.case((c, mix, rep))
        ctx.count("acknowledged", len(f.acked))
        ctx.count("direct", len([l for l in lines if b"PROCESS_FILE" not in l]))
        ctx.count("spool files", len(files))
        ctx.count("never completed or refused", len(f.refused))
        ev = srv.events()
        for t, what in (("W", "pipe writes"), ("w", "failed pipe writes"), ("A", "asynchronous writes")):
            ctx.count(what, sum(1 for e in ev if e[0] == t))
        ctx.samples.append({"mix": list(mix), "acked": len(f.acked), "spool_files": len(files)})


def run(ctx):
    mixes = [(m, i) for i in range(ctx.n(1, 12)) for m in MIXES]
    ctx.pmap(lambda a: scenario(ctx, *a) if ctx.left(80, 800) > 0 else None, mixes, 4)
    ctx.samples = ctx.samples[:12]
