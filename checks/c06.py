"""C06: commands keep their order.  Oracle: the acknowledgement order (one driver thread uses
all sessions in lockstep, so it is total) against the pipe and each spool file."""
import fcntl, random, threading
import flow
from c05 import F_SETPIPE_SZ
from nlib import *

TECHNIQUE = "runtime monitoring: offline order checker over acknowledgement log, pipe stream and spool files"
NOTE = ("A single driver thread makes the acknowledgement order total across sessions; the direct part of the pipe stream and every "
        "spool file must be increasing in it, and equal to it while the reader keeps up.  Histories are sampled.")
RULE = ("one case = one acknowledged command whose position was judged; distinct = distinct (command, scenario); non-trivial = "
        "delivered after a backlog, through a spool file, or among commands of other sessions")
ASSUMPTIONS = ["the order between a spool file and commands written directly meanwhile is not part of the property"]


def judge(f, ctx, tag, total=False):
    lines, cmds, files = f.check(40)
    ref = f.acked
    direct = [m.group(1) for m in map(flow.ID.match, lines) if m]
    bad = f.order_violation(direct, ref)
    if bad:
        raise Violation("commands written directly to the pipe are out of order", f"{bad!r} in {tag}\n{direct[:50]!r}\n{ref[:50]!r}")
    for path, st, c in files:
        ids = [m.group(1) for m in map(flow.ID.match, split_stream(c)[0]) if m]
        bad = f.order_violation(ids, ref)
        if bad:
            raise Violation("commands inside a spool file are out of order", f"{bad!r} in {tag}\n{ids[:50]!r}")
    if total and direct != ref:
        raise Violation("commands are not in acknowledgement order although the reader kept up",
                        f"{tag}: {len(direct)} direct, {len(ref)} acknowledged, {len(files)} spool files", soft=True)
    for i in ref:
        ctx.case((i, tag))
    ctx.count("acknowledged", len(ref))
    ctx.count("delivered directly", len(direct))
    ctx.count("spool files", len(files))
    return lines, files


def attentive(ctx, variant, seed):
    with Server(ctx, variant=variant, mon=True, loglevel=1) as srv:
        f = flow.Flow(srv, seed)
        r = random.Random(seed)
        ss = [(sess(srv.port), b"s%d" % k) for k in range(5)]
        for _ in range(300):
            s, n = r.choice(ss)
            f.push(s, n, r.choice([30, 60, 200, 1000]))
        judge(f, ctx, f"attentive reader, {variant}", total=True)
        # a second round on the same sessions, payload and next request in one record
        for s, n in ss:
            f.pipelined(s, n, [r.choice([30, 100, 900]) for _ in range(20)])
            judge(f, ctx, f"attentive reader, back to back, {variant}", total=True)
        for s, _ in ss:
            s.quit()


def stalls(ctx, variant, ctl, small, seed):
    """Reader stalls of varying length; all sizes."""
    with Server(ctx, variant=variant, mon=True, loglevel=1, opts="max_command_size = 0") as srv:
        if small:
            fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, 4096)
        srv.set_ctl(ctl)
        f = flow.Flow(srv, seed)
        r = random.Random(f"{seed}{variant}{ctl}")
        ss = [(sess(srv.port), b"s%d" % k) for k in range(4)]
        tag = f"stalls {variant} {ctl} {small}"
        for rnd in range(14):
            srv.fifo.pause()
            kind = r.choice(["small", "small", "small", "edge", "pack", "mixed"])
            for _ in range(r.choice([1, 3, 10, 30, 60])):
                s, n = r.choice(ss)
                f.push(s, n, flow.sizes(r, kind))
            if r.random() < 0.3:
                time.sleep(0.03)
            srv.fifo.resume()
            for _ in range(r.choice([0, 2, 10])):
                s, n = r.choice(ss)
                f.push(s, n, flow.sizes(r, "small"))
            if r.random() < 0.5:
                judge(f, ctx, tag)
        judge(f, ctx, tag)


def backlog(ctx, variant, sizes, gap, seed):
    """No reader at first / in the middle; the backlog comes in acknowledgement order."""
    with Server(ctx, variant=variant, mon=True, loglevel=3, reading=(gap == "middle"), opts="max_command_size = 0\ntimeout = 0") as srv:
        f = flow.Flow(srv, seed)
        ss = [(sess(srv.port), b"s%d" % k) for k in range(3)]
        r = random.Random(f"{seed}{sizes}{gap}")
        tag = f"backlog {variant} {gap} {sizes}"
        done = 0
        if gap == "middle":
            for _ in range(20):
                s, n = r.choice(ss)
                f.push(s, n, 60)
            judge(f, ctx, tag, total=True)
            srv.fifo.close_reader()
            done = len(f.acked)
        for z in sizes:
            s, n = r.choice(ss)
            f.push(s, n, z)
        total = sum(len(f.sent[i]) for i in f.acked[done:])
        srv.fifo.open()
        lines, files = judge(f, ctx, tag)
        ids = []
        for l in lines:
            m = PF.match(l)
            if m:
                p = [c for q_, st, c in files if q_ == m.group(2)][0]
                ids += [flow.ID.match(x).group(1) for x in split_stream(p)[0] if flow.ID.match(x)]
            else:
                ids.append(flow.ID.match(l).group(1))
        if ids != f.acked:
            raise Violation("the backlog was not handed over in acknowledgement order", f"{tag}\ngot {ids[:40]!r}\nacked {f.acked[:40]!r}")
        ctx.count("backlogs handed over")
        ctx.count("backlog bytes", total)


def vanish(ctx, variant, sizes, pipe, seed):
    """The reader stalls, then goes away with the pipe full and more waiting in the server; a new one
    comes later.  What had not been written yet is handed over in acknowledgement order."""
    with Server(ctx, variant=variant, mon=True, loglevel=3, opts="max_command_size = 0\ntimeout = 0") as srv:
        fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, pipe)
        f = flow.Flow(srv, seed)
        ss = [(sess(srv.port), b"s%d" % k) for k in range(3)]
        r = random.Random(f"{seed}{sizes}{pipe}")
        tag = f"reader gone {variant} {pipe} {sizes}"
        srv.fifo.pause()
        k = r.randrange(len(sizes) // 2, len(sizes))
        for z in sizes[:k]:
            f.push(*r.choice(ss), z)
        time.sleep(0.2)
        before = len(f.acked)
        with srv.fifo.polling, srv.fifo.lock:
            os.close(srv.fifo.fd)           # without reading what is in the pipe
            srv.fifo.fd = None
        for z in sizes[k:]:
            f.push(*r.choice(ss), z)
        time.sleep(0.1)
        gone = b"".join(d for t, d in srv.events() if t == "W")
        gone = split_stream(gone)[0]
        srv.fifo.resume()
        srv.fifo.open()
        written = {m.group(1) for m in map(flow.ID.match, gone) if m}
        for c in expand([l for l in gone if PF.match(l)], consume=False)[0]:
            m = flow.ID.match(c)
            if m:
                written.add(m.group(1))
        want = [i for i in f.acked if i not in written]

        def have():
            lines, rest, cmds, files, bad = f.delivered()
            return [m.group(1) for m in map(flow.ID.match, cmds) if m]
        wait_for(lambda: set(want) <= set(have()), 30)
        srv.check_alive()
        ids = have()
        rank = {i: n for n, i in enumerate(f.acked)}
        late = [i for i in ids if i in set(want)]
        bad = None
        # A batch that was being written to a spool file while the reader was still there may be
        # overtaken by what was queued meanwhile; everything else is in the order of the acknowledgements.
        lines, rest, cmds, files, _ = f.delivered()
        spool = bool(files) or any(PF.match(l) for l in gone)
        direct = [m.group(1) for m in map(flow.ID.match, lines) if m]
        streams = [direct] + [[m.group(1) for m in map(flow.ID.match, split_stream(c)[0]) if m] for q_, st, c in files]
        # (The server notices that the reader is gone only when it writes something, so that such a batch
        # may include commands acknowledged afterwards; without AIO, the write is over at once.)
        if not spool or variant == "noaio":
            streams.append([i for i in late if rank[i] >= before])
        if not spool:
            streams.append(ids)
        for st in streams:
            st = [rank[i] for i in st if i in set(want)]
            if st != sorted(st):
                bad = bad or ("out of order", st[:60])
        if bad or set(late) != set(want) or len(late) != len(want):
            raise Violation("the backlog was not handed over in acknowledgement order",
                            f"{bad!r} {tag}\ngot {ids[:60]!r}\nexpected {want[:60]!r}\nacked {f.acked[:60]!r}", soft=not bad)
        for i in want:
            ctx.case((i, tag))
        ctx.count("commands handed over to the next reader", len(want))


def run(ctx):
    jobs = []
    for rep in range(ctx.n(1, 6)):
        for v in ("plain", "noaio", "asan"):
            for sizes in ([1000] * 9, [700] * 12, [60] * 130, [1000] * 20, [2100] * 4):
                jobs.append((vanish, (v, sizes, 4096, f"{ctx.seed}{rep}")))
            jobs.append((vanish, (v, [1000] * 72, 65536, f"{ctx.seed}{rep}")))
    for v in ("plain", "noaio"):
        jobs += [(attentive, (v, ctx.seed))]
        for sizes in ([30] * 20, [100] * 400, [4000, 50, 3000, 60], [20000, 50, 60, 70], [50, 60, 20000, 70, 80, 4096, 90], [4096], [48, 4048], [49, 4048, 30]):
            for gap in (("start",) if not ctx.thorough and len(sizes) > 4 else ("start", "middle")):
                jobs.append((backlog, (v, sizes, gap, ctx.seed)))
    for rep in range(ctx.n(1, 25)):
        for v in ("plain", "asan", "asan-noaio"):
            jobs += [(stalls, (v, "", True, rep)), (stalls, (v, "eagain=2 eintr=3", True, rep)), (stalls, (v, "aiodelay=25", False, rep)),
                     (stalls, (v, "aiodelay=60 eagain=3", True, rep))]
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(60, 800) > 0 else None, jobs, 48)
