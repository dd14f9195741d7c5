"""C22: send_nsca turns its input into exactly the right commands.  Oracle: the commands a scripted
server received, against an independent reading of the input."""
import os, random, threading, time
from nlib import *
import cl

TECHNIQUE = "runtime monitoring: record/replay oracle on the commands a scripted server receives from the instrumented send_nsca"
NOTE = ("Generated inputs (delimiters, separators, their notations, escapes, blank and malformed records, sizes around the read and buffer block sizes), "
        "split into arbitrary reads of pipes, sockets and files; each command received is compared byte for byte, in order, with what the manual says "
        "the input stands for; malformed input must fail without being submitted.")
RULE = ("one case = one run of send_nsca to its end; distinct = distinct (mode, delimiter, separator, notation, number of records, splitting, malformation, input); "
        "non-trivial = at least one command reached the server, or the input was malformed or blank")
ASSUMPTIONS = ["a carriage return at the end of a record and a -C line of blanks only are not judged (the manual does not say what they stand for)"]

SIMPLE = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,;:|=_-/()[]#$%&*+!?<>@^~`'\"{}"


def notation(r, c):
    """Ways to write the character c on the command line."""
    ways = []
    if c and c != 0:
        ways.append(bytes([c]))
    if c < 128:
        ways += [b"0%o" % c, b"0%03o" % c, b"0x%x" % c, b"0x%02X" % c, b"\\%o" % c if c >= 8 or True else b"", b"\\x%x" % c, b"\\x%02x" % c]
        if c < 64:
            ways.append(b"\\0%02o" % c)
    n = {7: b"\\a", 8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t", 11: b"\\v"}.get(c)
    if n:
        ways += [n, n]
    w = r.choice([x for x in ways if len(x) <= 5])
    return w


def delims(r):
    while True:
        d = r.choice([9, 9, 9, ord(";"), ord(","), ord("|"), ord(" "), ord(":"), ord("n"), ord("\""), ord("-"), ord("0"), 1, 127, 11, 8, r.randrange(1, 256)])
        if d not in (23, 10, 0, 92, 13):
            break
    while True:
        s = r.choice([23, 23, 23, 10, ord("@"), 0, ord("\\"), 4, ord("x"), ord("#"), r.randrange(0, 256)])
        if s not in (13, d):
            return d, s


def text(r, n, bad):
    """n bytes without those in bad."""
    how = r.random()
    if how < .6:
        alpha = [c for c in SIMPLE if c not in bad]
    elif how < .9:
        alpha = [c for c in SIMPLE + b"\\\\\\nnn\n\n\\" if c not in bad]
    else:
        alpha = [c for c in range(1, 256) if c not in bad and c != 13]
    alpha = bytes(alpha)
    return bytes(r.choice(alpha) for _ in range(n))


SIZES = [0, 1, 2, 3, 10, 20, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 16383, 16384, 16385, 20000]


def size(r):
    x = r.random()
    if x < .6:
        return r.randrange(0, 60)
    if x < .95:
        return max(0, r.choice(SIZES) + r.choice([0, 0, -40, -45, -50, 1, -1]) - r.randrange(3))
    return r.choice([65535, 65536, 70000, 131072])


def record(r, d, s, bad_chars):
    nf = r.choice([3, 3, 4, 4, 4])
    f = [text(r, r.choice([0, 1, 5, 12, 40]) if r.random() < .95 else size(r), bad_chars) for _ in range(nf - 1)]
    f[0] = f[0].lstrip(b"\n")
    if not f[0] and d in (10, 13):
        f[0] = b"h"
    last = text(r, size(r), (set(bad_chars) - {d}) if nf == 4 else bad_chars)   # the last field of a service result may hold delimiters
    return bytes([d]).join(f + [last])


def malformed(r, d, bad_chars):
    n = r.choice([1, 2])
    f = [text(r, r.choice([1, 4, 30, 3000]), bad_chars).strip(b"\n") or b"x" for _ in range(n)]
    return bytes([d]).join(f)


def command(r):
    b = text(r, max(1, size(r)), {10, 13, 0}).lstrip(b" \t[") or b"C"
    x = r.random()
    lead = r.choice([b"", b"", b"", b" ", b"\t", b"  \t "])
    if x < .4:
        return lead + b"[%d] " % r.choice([1, 0, 1500000000, 99999999999, 2**40]) + b
    if x < .5:
        return lead + b"[" + b           # taken to have a time stamp
    return lead + b


def split(r, data):
    how = r.choice(["one", "one", "rnd", "rnd", "bytes", "128", "sock", "file", "rec"])
    if how == "one" or how == "file" or len(data) == 0:
        return how, [data]
    if how == "bytes" and len(data) > 300:
        how = "rnd"
    if how == "bytes":
        out = []
        for i in range(len(data)):
            out.append(data[i:i + 1])
            if r.random() < .2:
                out.append(.001)
        return how, out
    if how == "128":
        k = r.choice([127, 128, 129, 64])
        out = []
        for o in range(0, len(data), k):
            out += [data[o:o + k]]
            if o < 3000:
                out.append(.002)
        return how, out
    if how == "rec":
        cuts = [i + 1 for i, c in enumerate(data) if c in (23, 10)][:30]
    else:
        cuts = sorted(r.randrange(len(data) + 1) for _ in range(r.choice([1, 2, 5, 12])))
    out, p = [], 0
    for c in cuts + [len(data)]:
        out += [data[p:c], r.choice([0, .001, .005, .02])]
        p = c
    return how, out


def one(ctx, hub, seed):
    r = random.Random(f"{ctx.pid}/{ctx.seed}/{seed}")
    raw = r.random() < .35
    d, s = (9, 23) if r.random() < .25 else delims(r)
    bad = {d, 13, 0, s}
    n = r.choice([0, 1, 1, 2, 3, 5, 10, 25])
    args = []
    mal = None
    if raw:
        args.append(r.choice(["-C", b"-C"]))
        if r.random() < .3:
            args += [b"-d" + notation(r, d)]      # to be ignored
        if r.random() < .3:
            args += [b"-e", notation(r, s)]
        parts = [command(r) for _ in range(n)]
        sep = b"\n"
    else:
        if d != 9 or r.random() < .2:
            args += r.choice([lambda w: [b"-d", w], lambda w: [b"-d" + w]])(notation(r, d))
        if s != 23 or r.random() < .2:
            args += r.choice([lambda w: [b"-e", w], lambda w: [b"-e" + w]])(notation(r, s))
        parts = [record(r, d, s, bad) for _ in range(n)]
        sep = bytes([s])
        if r.random() < .2:
            mal = r.randrange(n + 1)
            parts.insert(mal, malformed(r, d, bad))
    data = b""
    for i, p in enumerate(parts):
        if r.random() < .3:     # blank records
            for _ in range(r.choice([1, 1, 2, 6])):
                blank = r.choice([b"", b"\n", b"\r\n", b"\n\n"])
                if raw or s == 10:
                    blank = blank.replace(b"\n", b"")
                data += blank + sep
        if r.random() < .3 and not raw and s != 10:
            data += r.choice([b"\n", b"\r\n", b"\n\n\r"])
        data += p
        if i < len(parts) - 1 or r.random() < .5:
            if r.random() < .6 and not raw and s != 10:
                data += b"\n"
            data += sep
    if r.random() < .15:
        data += r.choice([b"\n", sep, sep * 3, b"\n" + sep])
    if not raw and any(p.rstrip(b"\n").endswith(b"\r") for p in data.split(sep) if p.strip(b"\r\n")):
        return
    want, bad_input = cl.meaning(data, raw, bytes([d]), sep)
    how, chunks = split(r, data)
    kind = {"file": "file", "sock": "socket"}.get(how, "pipe")
    what = f"input of {len(parts)} records ({'raw' if raw else 'results'}, {how})"
    res = cl.run(ctx, hub, chunks, args, how=kind, what=what, timeout=60)
    try:
        cl.verify(res, want, what)
        if bad_input:
            if res.rc == 0 or not res.err:
                raise Violation(f"{what}: malformed input, but exit status {res.rc} (message: {res.err[-200:]!r})", repr(data[:2000]))
        elif res.rc != 0 or not res.quit:
            raise Violation(f"{what}: exit status {res.rc}, QUIT {res.quit}: {res.err[-300:]!r}", f"{res.argv}\n{data[:2000]!r}")
    except Violation as v:
        v.detail = f"{v.detail}\nargs {args!r} input ({len(data)} bytes) {data[:3000]!r}"
        raise
    ctx.count("commands compared", len(want))
    ctx.count("runs: " + how)
    if bad_input:
        ctx.count("malformed inputs refused")
    ctx.case((raw, d, s, how, len(parts), mal, data), bool(want) or bad_input or bool(data.strip()),
             f"{args} {data[:80]!r}" if seed < 10 else None)


def fixed(ctx, hub, item):
    """Hand-written inputs."""
    name, args, data, want, rc, how = item
    w, badi = cl.meaning(data, "-C" in args, *([x for x in want] if isinstance(want, tuple) else [])) if not isinstance(want, list) else (want, rc)
    parts = data if isinstance(data, list) else [data]
    res = cl.run(ctx, hub, parts, args, what=name, timeout=60, how=how)
    cl.verify(res, want, name)
    if bool(res.rc) != rc:
        raise Violation(f"{name}: exit status {res.rc}: {res.err[-300:]!r}")
    ctx.case((name,), True)
    ctx.count("hand-written inputs")


H = b"PROCESS_HOST_CHECK_RESULT;"
S = b"PROCESS_SERVICE_CHECK_RESULT;"


def timestamps(ctx, hub):
    """Each command has the time of its own submission, in a long session as well."""
    for raw in (False, True):
        written = []

        def chunks():
            for k in range(3):
                written.append(time.time())
                yield b"X;%d\n" % k if raw else b"h%d\t0\tok\x17" % k
                yield 2.6
        res = cl.run(ctx, hub, chunks(), ["-C"] if raw else [], what="a slow writer", timeout=60, how="pipe")
        got = [int(m.group(1)) for m in map(cl.STAMP.match, res.cmds) if m]
        if res.rc != 0 or len(got) != 3:
            raise Violation("a slow writer: exit status %d, %d commands" % (res.rc, len(got)), f"{res.err[-300:]!r} {res.cmds!r}")
        for k, (w, g) in enumerate(zip(written, got)):
            if g < int(w) - 1:
                raise Violation("a command has the time of an earlier one", f"command {k} written at {w:.1f}, stamped {g}", soft=True)
        ctx.case(("timestamps", raw), True)


def run(ctx):
    hub = cl.Hub(ctx)

    def bg():
        try:
            ctx.attempt(timestamps, ctx, hub)
        except StopCheck:
            pass
    stamps = threading.Thread(target=bg)
    stamps.start()
    items = [
        ("empty input", [], b"", [], False, "pipe"),
        ("newline only", [], b"\n", [], False, "file"),
        ("blank records only", [], b"\x17" * 50, [], False, "pipe"),
        ("very many blank records", [], b"\x17" * 300000 + b"h\t0\tok", [(True, H + b"h;0;ok\n")], False, "file"),
        ("very many blank lines in -C mode", ["-C"], b"\n" * 300000 + b"[5] X\n" + b"\n" * 200000, [(False, b"[5] X\n")], False, "file"),
        ("old-style single result", [], b"web1\tHTTP\t2\tCRITICAL: down\n", [(True, S + b"web1;HTTP;2;CRITICAL: down\n")], False, "pipe"),
        ("multi-line", [], b"h\ts\t1\tone\ntwo\\three\n", [(True, S + b"h;s;1;one\\ntwo\\\\three\n")], False, "pipe"),
        ("delimiters after the last field", [], b"h\ts\t1\ta\tb\t\tc\t", [(True, S + b"h;s;1;a\tb\t\tc\t\n")], False, "pipe"),
        ("empty fields", [], b"\t\t", [(True, H + b";;\n")], False, "pipe"),
        ("empty fields 2", [], b"\t\t\t", [(True, S + b";;;\n")], False, "pipe"),
        ("NUL within a record", [], b"a\t0\tb\0c\x17d\t0\te", None, True, "pipe"),
        ("NUL within a raw command", ["-C"], b"[1] X\0Y\n", None, True, "pipe"),
        ("NUL as the separator", ["-e", "0x0"], b"a\t0\tb\0c\t0\td\0", [(True, H + b"a;0;b\n"), (True, H + b"c;0;d\n")], False, "pipe"),
        ("delimiter n and escapes", ["-d", "n"], b"a\nbn0nx\n\\y", [(True, H + b"a\\nb;0;x\\n\\\\y\n")], False, "pipe"),
        ("a letter after an escape", ["-d", "x"], b"a\\xbx2xc\n", [(True, S + b"a\\\\;b;2;c\n")], False, "pipe"),
        ("a large result", [], b"h\t0\t" + b"y" * 250000, [(True, H + b"h;0;" + b"y" * 250000 + b"\n")], False, "file"),
        ("slow writer", [], [b"h", .3, b"\t0", .3, b"\tok", .3, b"\x17", .3, b"g\t1\t", .3, b"bad"], [(True, H + b"h;0;ok\n"), (True, H + b"g;1;bad\n")], False, "pipe"),
        ("unfinished record before the end", [], b"h\t0\tok\x17g\t1", [(True, H + b"h;0;ok\n")], True, "pipe"),
    ]
    for raw in (False, True):
        for k in ctx.n((1, 127, 128, 129, 1023, 4096), (1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192)):
            # records that end exactly at the end of a read, and one byte to either side
            recs, want = [], []
            for j in (-1, 0, 1, 0, 0):
                n = max(6, k + j) if not raw else max(2, k + j)
                if raw:
                    b = b"[1]" + b"x" * max(0, n - 4)
                    recs.append(b + b"\n")
                    want.append((False, b + b"\n"))
                else:
                    b = b"h\t0\t" + b"m" * (n - 5)
                    recs.append(b + b"\x17")
                    want.append((True, H + b.replace(b"\t", b";") + b"\n"))
            items.append((f"records of about {k} bytes", ["-C"] if raw else [], [y for x in recs for y in (x, .005)], want, False, "pipe"))
            items.append((f"records of about {k} bytes in a file", ["-C"] if raw else [], b"".join(recs), want, False, "file"))

    def fix(item):
        if item[3] is None:          # nothing but intact commands may arrive
            res = cl.run(ctx, hub, item[2], item[1], what=item[0])
            if res.rc == 0 or not res.err:
                raise Violation(f"{item[0]}: accepted: {res.cmds!r}")
            for c in res.cmds:
                if not c.endswith((b";d;0;e\n", b"a;0;b\n")[:0] or b"\n") or b"b\n" in c or b"X\n" in c:
                    raise Violation(f"{item[0]}: cut short to {c!r}")
            ctx.case((item[0],), True)
            return
        fixed(ctx, hub, item)
    try:
        ctx.pmap(fix, items)
        n = ctx.n(450, 9000)
        todo = list(range(n))
        for o in range(0, n, 150):
            if ctx.left(45, 840) < 0:
                break
            ctx.pmap(lambda k: one(ctx, hub, k), todo[o:o + 150])
        stamps.join()
    finally:
        hub.close()
