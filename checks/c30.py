"""C30: the byte queue is a faithful FIFO.  Oracle: a plain array with a read position, compared after every operation; ASan, UBSan and MSan."""
import os, random, subprocess
from nlib import *
import cl, flow

TECHNIQUE = "runtime monitoring: model-based random and boundary-enumerated operation histories on the real queue compared with a reference after every operation, under ASan/UBSan and MSan; end-to-end byte conservation through server and client"
NOTE = ("src/common/buffer.c is driven directly: every combination of four appends/reads with sizes around the block boundaries, records ending at each position of the "
        "first three blocks, and random histories on several queues at once (sizes, contents and terminators chosen to meet the boundaries); after each operation the data, "
        "the number returned and the size are compared with a reference array.  Input areas have their exact size and are overwritten after the call.")
RULE = "one case = one history of operations; distinct = distinct (variant, process); all are non-trivial"
ASSUMPTIONS = ["memory allocation succeeds"]


def drive(ctx, j):
    variant, k, exhaust = j
    try:
        b = build.harness("bufcheck.c", tuple(os.path.relpath(s, build.REPO) for s in build.common_sources()), variant)
    except build.BuildError as e:
        ctx.count(f"queue not usable directly ({variant})")
        if os.environ.get("VERIF_DEBUG"):
            print(e)
        return
    secs = ctx.n(3, 120)
    e = {x: y for x, y in os.environ.items() if not x.startswith(("ASAN", "UBSAN", "MSAN", "LSAN"))}
    e.update(ASAN_OPTIONS="exitcode=99:detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1", MSAN_OPTIONS="exitcode=99")
    p = ctx.spawn([b, str(ctx.seed * 1000 + k), str(secs)] + (["x"] if exhaust else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    try:
        out, err = p.communicate(timeout=secs * 3 + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Violation("an operation on the queue doesn't end", f"bufcheck {j}", soft=True)
    out, err = out.decode("latin-1"), err.decode("latin-1")
    if p.returncode == 77:
        raise Violation(out.split("\n")[0], out[-6000:])
    if p.returncode != 0:
        raise Violation("sanitizer report: " + first_line(err), f"bufcheck {j} status {p.returncode}\n{out[-500:]}\n{err[:6000]}")
    d = dict(x.split("=") for x in out.split() if "=" in x)
    for x, y in d.items():
        ctx.count(f"{variant} {x}", int(y))
    ctx.evals += int(d["histories"]) - 1
    ctx.case((variant, k))
    if int(d["lines"]) == 0 or int(d["across"]) == 0:
        raise Inconclusive("the histories met no records or no block boundaries")


EDGES = [1, 2, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 383, 384, 385, 511, 512, 513, 1024, 4000, 8192]


def through_server(ctx, k):
    """Payloads and protocol lines around the block boundaries, cut into records at any place."""
    r = random.Random(f"{ctx.seed}/c30s{k}")
    with Server(ctx, variant="asan") as srv:
        f = flow.Flow(srv, seed=k)
        for n in range(2):
            s = sess(srv.port)
            name = b"s%d" % n
            for m in range(r.randint(4, 8)):
                some = [max(26, r.choice(EDGES) + r.choice([0, 0, 1, -1])) for _ in range(r.randint(1, 6))]
                f.pipelined(s, name, some, chunk=r.choice([None, None, 1 + r.randrange(40), 100 + r.randrange(60), 128, 256, 300]))
            s.quit()
        f.check()
        ctx.count("commands through the server", len(f.acked))
    ctx.case(("server", k))


def through_client(ctx, hub, k):
    """Input of which records, separators and reads end around the block boundaries."""
    r = random.Random(f"{ctx.seed}/c30c{k}")
    raw = r.random() < .5
    recs = []
    for _ in range(r.randint(1, 12)):
        n = max(1, r.choice(EDGES) + r.choice([0, 0, 1, -1, -2]))
        body = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789;= ") for _ in range(n))
        recs.append(b"[1] A;" + body if raw else b"h\ts\t0\t" + body)
    data = (b"\n" if raw else b"\x17").join(recs) + (b"\n" if raw else b"\x17")
    parts, i = [], 0
    cut = r.choice([len(data), 128, 127, 129, 256, 1000, 2048])
    while i < len(data):
        n = max(1, cut + r.choice([0, 0, -1, 1]))
        parts.append(data[i:i + n])
        if r.random() < .2:
            parts.append(.002)
        i += n
    x = cl.run(ctx, hub, parts, ["-C"] if raw else [], what=f"input {k}")
    cl.verify(x, cl.meaning(data, raw=raw)[0], "send_nsca's input")
    if x.rc != 0:
        raise Violation(f"send_nsca failed: exit {x.rc}", repr(x.err[-500:]))
    ctx.count("commands through the client", len(x.cmds))
    ctx.case(("client", k))


def run(ctx):
    hub = cl.Hub(ctx)
    jobs = [("d", j) for j in [("asan", 1, True), ("msan", 2, True), ("asan", 3, False), ("plain", 5, False), ("msan", 6, False)]]
    jobs += [("s", k) for k in range(ctx.n(4, 40))] + [("c", k) for k in range(ctx.n(40, 800))]

    def one(j):
        if j[0] == "d":
            drive(ctx, j[1])
        elif j[0] == "s":
            through_server(ctx, j[1])
        else:
            through_client(ctx, hub, j[1])
    ctx.pmap(one, jobs)
    hub.close()
