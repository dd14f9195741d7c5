"""C10: behaviour depends on the bytes, not on their packaging.  Oracle: metamorphic; the same
script in lockstep with one record per request is the reference."""
import random, threading
import flow
from nlib import *

TECHNIQUE = "runtime monitoring: metamorphic oracle (same bytes, different records, segments, TLS versions, delays, reading speeds)"
NOTE = ("Responses and deliveries of a script under random record and segment boundaries (every boundary near a line or payload end), "
        "delays, TLS 1.0 to 1.3, key updates and slow response reading equal those of the lockstep run.  Sampled, plus every single "
        "split point of two short scripts.")
RULE = ("one case = one run of a script in one packaging; distinct = distinct (script, packaging); non-trivial = differs from the "
        "lockstep reference in record or segment boundaries, TLS version or reading speed")
ASSUMPTIONS = ["a client waits for the OKAY to a PUSH before it sends the payload, as PROTOCOL says"]
AUTH = 'authorize "id" {\n password = "pw"\n commands = "C;.*"\n}\n'
OPTS = 'tls_ciphers = "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:PSK-AES128-GCM-SHA256:@SECLEVEL=0"\nmax_command_size = 3000000\ntimeout = 60'


def make_script(r, n, big=False):
    """[(bytes, number of responses)], a group per point where the client has to wait; and
    the lines that ought to be delivered."""
    groups, cur, resp, good = [], b"MOIN 1 abcdef\r\n", 1, []
    for k in range(n):
        kind = r.choice(["PUSH"] * 5 + ["NOOP", "NOOP", "junk", "MOINlate", "denied", "badpush", "lf"])
        if kind in ("PUSH", "denied"):
            size = r.choice([1, 5, 60, 127, 128, 129, 255, 256, 2047, 2048, 2049, 4096, 9000] + ([16384, 16385, 40000, 200000] if big else []))
            l = (b"[%d] %s;" % (1500000000, b"C" if kind == "PUSH" else b"D")) + b"%d;" % k
            l += b"y" * max(1, size - len(l) - 1) + b"\n"
            cur += b"PUSH %d\r\n" % len(l)
            groups.append((cur, resp + 1))
            cur, resp = l, 1
            if kind == "PUSH":
                good.append(l)
        else:
            cur += {"NOOP": b"NOOP\r\n", "lf": b"noop\n", "junk": b"HELLO THERE %d\r\n" % k, "MOINlate": b"MOIN 1 ab\r\n", "badpush": b"PUSH x\r\n"}[kind]
            resp += 1
    cur += b"QUIT\r\n"
    groups.append((cur, resp + 1))
    return groups, good


def lines_of(group):
    """Cut a group into the pieces a lockstep client would send."""
    data, n = group
    return data


def play(srv, groups, pack, r, version="1.3"):
    """pack: dict(records=callable(bytes)->list, segments=callable or None, delay, read, keyupdate, rcvbuf)"""
    e = tlspsk.session(srv.port, b"id", b"pw", 30, version=version, rcvbuf=pack.get("rcvbuf"),
                       minver=version if version in ("1.0", "1.1") else None)
    out = []
    for data, n in groups:
        enc = []
        for rec in pack["records"](data, r):
            if pack.get("keyupdate") and version == "1.3" and r.random() < 0.2:
                tlspsk.SSL_key_update(e.ssl, r.choice([0, 1]))
            enc.append(e.encrypt(rec))
        wire = b"".join(enc)
        segs = pack["segments"](wire, r) if pack.get("segments") else enc if pack.get("delay") else [wire]
        for sg in segs:
            e.send_raw(sg, 30)
            if pack.get("delay"):
                time.sleep(r.random() * pack["delay"])
        if pack.get("read"):
            time.sleep(pack["read"])
        for _ in range(n):
            out.append(e.readline(30))
    rest = e.read_to_end(10)
    e.close()
    return out, rest


def lockstep(data, r):
    """One record per line; payloads (they end in a newline too) whole."""
    return [x + b"\n" for x in data.split(b"\n")[:-1]]


def chop(data, r, lo=1, hi=4000, near=None):
    out, i = [], 0
    while i < len(data):
        n = r.randint(lo, hi)
        j = data.find(b"\n", i)
        if near and j >= 0 and r.random() < 0.6:
            n = max(1, j - i + r.choice([-2, -1, 0, 1, 2]))
        out.append(data[i:i + n])
        i += n
    return out


PACKS = {
    "one record per group": dict(records=lambda d, r: [d]),
    "one byte per record": dict(records=lambda d, r: [d[i:i + 1] for i in range(len(d))] if len(d) < 3000 else chop(d, r, 1, 60)),
    "split near line ends": dict(records=lambda d, r: chop(d, r, 1, 300, near=True)),
    "split near line ends, delayed": dict(records=lambda d, r: chop(d, r, 20, 2000, near=True), delay=0.003),
    "odd segments": dict(records=lambda d, r: chop(d, r, 1, 3000), segments=lambda w, r: chop(w, r, 1, 900)),
    "odd segments, delayed": dict(records=lambda d, r: [d], segments=lambda w, r: chop(w, r, 100, 9000), delay=0.002),
    "key updates": dict(records=lambda d, r: chop(d, r, 1, 500, near=True), keyupdate=True),
    "late reading": dict(records=lambda d, r: chop(d, r, 1, 500, near=True), read=0.02, rcvbuf=2048),
    "block sized records": dict(records=lambda d, r: [d[i:i + 128] for i in range(0, len(d), 128)]),
    "line buffer sized records": dict(records=lambda d, r: [d[i:i + 2048] for i in range(0, len(d), 2048)]),
}


def check(ctx, srv, groups, good, ref, pack, r, version, tag):
    n0 = len(srv.fifo.snapshot())
    out, rest = play(srv, groups, pack, r, version)
    want = sum(map(len, good))
    if out != ref:
        k = next((i for i, (a, b) in enumerate(zip(out, ref)) if a != b), min(len(out), len(ref)))
        raise Violation("the responses depend on the packaging", f"{tag}: response {k}: {out[k:k+2]!r} instead of {ref[k:k+2]!r}")
    if rest:
        raise Violation("unexpected data after the last response", f"{tag}: {rest[:200]!r}")

    def got():
        return [l for l in flow_expand(srv, n0)]
    ok = wait_for(lambda: sum(map(len, got())) >= want, 15)
    g = got()
    if sorted(g) != sorted(good):
        raise Violation("what is delivered depends on the packaging", f"{tag}: {len(g)} lines instead of {len(good)}; e.g. "
                        f"{[x[:80] for x in g if x not in good][:2]!r}, missing {[x[:80] for x in good if x not in g][:2]!r}", soft=not ok)
    ctx.case(tag)
    ctx.count("responses compared", len(out))
    ctx.count("bytes sent", sum(len(d) for d, _ in groups))


def flow_expand(srv, n0):
    lines, rest = split_stream(srv.fifo.snapshot()[n0:])
    return expand(lines, consume=False)[0]


def batch(ctx, seed):
    r = random.Random(f"{ctx.seed}/{seed}")
    with Server(ctx, auth=AUTH, opts=OPTS, variant="asan" if seed % 2 else "plain", loglevel=r.choice([0, 5])) as srv:
        for k in range(ctx.n(2, 8)):
            groups, good = make_script(r, r.choice([3, 10, 30]), big=True)
            ref, rest = play(srv, groups, dict(records=lockstep), r)
            want = sum(map(len, good))
            if not wait_for(lambda: sum(map(len, flow_expand(srv, 0))) >= want, 20):
                raise Violation("the reference run was not delivered", f"{seed} {k}", soft=True)
            n_ref = len(srv.fifo.snapshot())
            if sorted(flow_expand(srv, 0))[:0]:
                pass
            for name, pack in PACKS.items():
                versions = ["1.0", "1.1", "1.2", "1.3"] if ctx.thorough else [r.choice(["1.0", "1.1"]), r.choice(["1.2", "1.3"])]
                for v in versions:
                    if ctx.left(80, 900) < 0:
                        return
                    check(ctx, srv, groups, good, ref, pack, r, v, f"script {seed}.{k}, {name}, TLS {v}")
            srv.fifo.data[:] = b""


def every_split(ctx, seed):
    """Every single record boundary, and every segment boundary, of a short script."""
    r = random.Random(f"{ctx.seed}/{seed}")
    l = b"[1500000000] C;x\n"
    groups = [(b"MOIN 1 ab\r\nNOOP\r\nPUSH %d\r\n" % len(l), 3), (l + b"noop\nQUIT\r\n", 3)]
    ref = [b"MOIN 1\r\n", b"OKAY\r\n", b"OKAY\r\n", b"OKAY\r\n", b"OKAY\r\n", b"OKAY\r\n"]
    with Server(ctx, auth=AUTH, opts=OPTS, variant="plain", loglevel=1) as srv:
        for mode in ("record", "segment"):
            for g in range(2):
                k = 1
                while True:
                    def cut(d, r, g=g, k=k):
                        return [d[:k], d[k:]] if d in (groups[g][0],) and 0 < k < len(d) else [d]
                    size = [0]

                    def seg(w, r, k=k, g=g):
                        seg.n += 1
                        if seg.n - 1 == g and k < len(w):
                            size[0] = len(w)
                            return [w[:k], w[k:]]
                        return [w]
                    seg.n = 0
                    if mode == "record":
                        if k >= len(groups[g][0]):
                            break
                        pack = dict(records=cut, delay=0.002 if k % 3 == 0 else 0)
                    else:
                        if k > 120:
                            break
                        pack = dict(records=lambda d, r: [d], segments=seg, delay=0.002)
                    v = r.choice(["1.2", "1.3"])
                    check(ctx, srv, groups, [l], ref, pack, r, v, f"{mode} boundary {k} of group {g}, TLS {v}")
                    srv.fifo.data[:] = b""
                    k += 1


def flood(ctx, v):
    """Megabytes of responses pile up before the client reads the first."""
    with Server(ctx, auth=AUTH, opts=OPTS, variant="plain", loglevel=0) as srv:
        e = tlspsk.session(srv.port, b"id", b"pw", 30, version=v, rcvbuf=4096)
        n = ctx.n(150000, 400000)
        e.send(b"MOIN 1 ab\r\n")
        block = b"x\n" * 500
        l = b"[1500000000] C;after\n"
        sent = [0]
        err = []

        def feed():
            try:
                while sent[0] < n:
                    e2 = e.encrypt(block)
                    e.send_raw(e2, 60)
                    sent[0] += 500
            except Exception as x:
                err.append(x)
        feed()
        if err:
            raise Violation("the server stopped reading from a client that is slow to read", repr(err[0]), soft=True)
        # another client meanwhile
        w = sess(srv.port)
        if w.push(b"[1500000000] C;w\n") != b"OKAY\r\n":
            raise Violation("another client was refused meanwhile")
        w.quit()
        got = e.readline(30)
        out = {}
        for _ in range(n):
            x = e.readline(30)
            out[x] = out.get(x, 0) + 1
        if got != b"MOIN 1\r\n" or len(out) != 1 or not list(out)[0].startswith(b"FAIL "):
            raise Violation("responses to a slow reader are wrong", f"{got!r} {list(out.items())[:5]!r}")
        e.send(b"PUSH %d\r\n" % len(l))
        if e.readline(20) != b"OKAY\r\n":
            raise Violation("PUSH refused after the flood")
        e.send(l + b"QUIT\r\n")
        if e.readline(20) + e.readline(20) != b"OKAY\r\nOKAY\r\n":
            raise Violation("submission refused after the flood")
        if e.read_to_end(10):
            raise Violation("surplus response after the flood")
        e.close()
        ctx.case(("flood", v), sample={"piled-up responses": n, "TLS": v})
        ctx.count("responses compared", n)


def run(ctx):
    jobs = [(flood, v) for v in ("1.2", "1.3")] + [(every_split, 0)] + [(batch, s) for s in range(ctx.n(6, 40))]
    ctx.pmap(lambda j: j[0](ctx, j[1]), jobs, 8)
