"""C31: the replacement library functions behave like the standard ones.  Oracle: the C library's
results; the programs built without the replacements; ASan, UBSan, MSan."""
import os, random, subprocess
from nlib import *
import cl
from c24 import BAD_LINES

TECHNIQUE = "runtime monitoring: differential oracle (the C library's functions) over generated formats, arguments and strings under ASan/UBSan/MSan; programs built with the replacements compared with normal ones"
NOTE = ("lib/xprintf.c, strdup.c, strcasecmp.c, strncasecmp.c and daemon.c, which are not compiled on this platform, are compiled as configure would have it where the "
        "functions are missing (two configurations).  Random formats with every mixture of flags, widths, precisions, length modifiers and arguments, cut at every size; all pairs of "
        "characters and random strings, in areas that end where they may not be read any further; daemonising with each combination of arguments and "
        "closed descriptors.  The server and send_nsca built that way under ASan go through the same sessions, files and command lines as the normal ones; their responses, "
        "commands, messages and exit statuses have to be the same.")
RULE = "one case = one generated format or string, or one run of a program; distinct = distinct (kind, variant, process or run); all are non-trivial"
ASSUMPTIONS = ["formats that no program here uses and for which the replacement is documented to differ (%a, %c with a width, the ' flag, a precision of zero for zero, very large or "
               "tiny numbers) and the rounding of values right between two results are not judged"]


def env():
    e = {x: y for x, y in os.environ.items() if not x.startswith(("ASAN", "UBSAN", "MSAN", "LSAN"))}
    e.update(ASAN_OPTIONS="exitcode=99:detect_leaks=0:check_printf=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1", MSAN_OPTIONS="exitcode=99")
    return e


def binary(ctx, f, variant, what):
    try:
        return f(variant)
    except build.BuildError as e:
        ctx.count(f"{what} not buildable ({variant})")
        if os.environ.get("VERIF_DEBUG"):
            print(e)
        # Sources that no longer compile where the functions are missing are no different result.
        return None


def drive(ctx, variant, k):
    b = binary(ctx, build.rplcheck, variant, "replacement functions")
    if not b:
        return
    secs = ctx.n(3, 120)
    p = ctx.spawn([b, str(ctx.seed * 1000 + k), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
    try:
        out, err = p.communicate(timeout=secs * 3 + 100)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Violation("a replacement function doesn't return", f"rplcheck {variant} {k}", soft=True)
    out, err = out.decode("latin-1"), err.decode("latin-1")
    if p.returncode == 77:
        raise Violation(out.split("\n")[0], out[-6000:])
    if p.returncode == 3:
        raise Inconclusive("no reference result: " + out[:300])
    if p.returncode != 0:
        raise Violation("sanitizer report: " + first_line(err), f"rplcheck {variant} {k} status {p.returncode}\n{out[-500:]}\n{err[:6000]}")
    d = dict(x.split("=") for x in out.split() if "=" in x)
    for x, y in d.items():
        ctx.count(f"{variant} {x}", int(y))
    ctx.evals += int(d["formats"]) + int(d["comparisons"]) - 1
    ctx.case((variant, k))


def daemonise(ctx, nochdir, noclose, closed):
    b = binary(ctx, build.rplcheck, "rpl", "replacement functions")
    if not b:
        return
    got = {}
    for impl in "rl":
        d = ctx.dir("dm")
        f = os.path.join(d, "out")
        r, w = os.pipe()
        p = ctx.spawn([b, "daemon", impl, str(nochdir), str(noclose), closed, f], stdin=r, stdout=w, stderr=w, cwd="/tmp", start_new_session=True)
        os.close(r)
        os.close(w)
        try:
            rc = p.wait(30)
        except subprocess.TimeoutExpired:
            raise Violation("daemon() doesn't return in the parent", f"{impl} {nochdir} {noclose} {closed}", soft=True)
        if not wait_for(lambda: os.path.exists(f) and open(f).read().endswith("end\n"), 20):
            if impl == "l":
                raise Inconclusive("no report from the reference")
            raise Violation("daemon() doesn't return in the child", f"{impl} {nochdir} {noclose} {closed} exit {rc}", soft=True)
        got[impl] = (rc, open(f).read())
    if got["r"] != got["l"]:
        raise Violation("the replacement for daemon() leaves the process in another state", f"nochdir {nochdir} noclose {noclose} descriptors {closed}\nreplacement {got['r']}\nlibrary {got['l']}")
    ctx.count("daemon() compared")
    ctx.case(("daemon", nochdir, noclose, closed))


# -- programs ------------------------------------------------------------------

def norm(b, *gone):
    for g in gone:
        b = b.replace(g, b"@")
    b = re.sub(rb"0x[0-9a-f]{4,}", b"0xP", b)
    b = re.sub(rb"\[\d{9,11}\]", b"[T]", b)
    b = re.sub(rb"\(ID: [A-Za-z0-9+/]{8}\)", b"(ID)", b)
    b = re.sub(rb"C: MOIN 1 \S{8}", b"C: MOIN 1 X", b)
    b = re.sub(rb"nsca\.[A-Za-z0-9]{6}", b"nsca.X", b)
    return b


VALUES = [b"a", b"h", b"plain", b"r\xe9sum\xe9 %s %n %m 100%", b"\xff\xfe", b"x" * 300, b"a\\b;c|d=1"]


def sender(ctx, hub, k):
    """send_nsca with and without the replacements."""
    for v in ("rpl-asan", "rplmin-asan"):
        if not binary(ctx, build.client, v, "send_nsca"):
            return
    r = random.Random(f"{ctx.seed}/c31c{k}")
    kind = r.choice(["ok", "ok", "ok", "raw", "fail", "bad conf", "bad usage", "odd", "timeout", "info"])
    args, stdin, script, more, text, timeout = [], b"", None, b"", None, 20
    if kind in ("ok", "fail", "odd"):
        recs = [b"\t".join([r.choice(VALUES), r.choice(VALUES), b"%d" % r.randrange(4), r.choice(VALUES) * r.choice([1, 1, 30])][r.choice([0, 0, 1]):]) for _ in range(r.randint(1, 5))]
        stdin = b"\x17".join(recs) + b"\n"
    if kind == "raw":
        args, stdin = ["-C"], b"".join(r.choice([b"[%d] " % r.randrange(10 ** 9, 2 * 10 ** 9), b""]) + b"CMD;" + r.choice(VALUES) + b"\n" for _ in range(r.randint(1, 5)))
    if kind == "fail":
        at = r.choice(["MOIN", "PUSH", "DATA", "QUIT"])
        say = r.choice([b"FAIL no %s %n\r\n", b"fail \xff\r\n", b"BAIL out\r\n", b"Bail\r\n", b"FAILX\r\n", b"what?\r\n", b"\xcf\xcb\xc1\xd9\r\n", b"OKA\xd9\r\n", b"\r\n"])
        script = lambda kk, arg: say if kk == at else None
    if kind == "odd":       # the same in another case
        o = {"MOIN": r.choice([b"moin 1\r\n", b"MoIn 1\r\n"]), "PUSH": r.choice([b"okay\r\n", b"OkAy\r\n"]), "DATA": b"oKAY\r\n", "QUIT": b"Okay\r\n"}
        script = lambda kk, arg: o.get(kk)
    if kind == "bad conf":
        text = r.choice([x[1] if isinstance(x, tuple) else x for x in BAD_LINES])
        text = b"server = 127.0.0.1\n" + (text if isinstance(text, bytes) else str(text).encode()) + b"\n"
    if kind == "timeout":
        timeout = 1
        script = lambda kk, arg: (lambda ep: time.sleep(1.6)) if kk == "MOIN" else None
    if kind == "bad usage":
        args = r.choice([["-x"], ["-d"], ["-d", "ab"], ["-e", "zz"], ["-D", "1x"], ["-o", "-1"], ["-p", "99999999"], ["-c", "/nonexistent/%s"], ["extra"], ["-D", "-3"]])
    if kind == "info":
        args = r.choice([["-h"], ["-V"]])
    args += r.choice([[], ["-v"], ["-v", "-v"], ["-s"], ["-S"], ["-v", "-v", "-v"]]) if kind not in ("bad usage", "info") else []
    got = []
    for v in ("asan", "rpl-asan", r.choice(["rplmin-asan", "rpl-asan"])):
        i = b"c%05d" % next(hub.n)
        hub.add(script, ident=i)
        conf = text if text is not None else cl.conf(i, hub.port, timeout=timeout, more=more)
        x = cl.send_nsca(ctx, args, [stdin], conf, variant=v)
        prog = os.fsencode(build.client(v))
        if x.san:
            raise Violation("send_nsca with the replacements: sanitizer report: " + first_line(x.san), f"{v} {kind} {x.argv}\n{x.san[:6000]}")
        if x.timed_out:
            raise Violation(f"send_nsca ({v}) did not end", f"{kind} {x.argv}", soft=True)
        recs = hub.recs[i]
        if recs:
            wait_for(lambda: all(y.get("done") for y in recs), 10)
        cmds = [norm(e[1]) for y in recs for e in y["events"] if e[0] == "DATA"]
        # What is written for debugging depends on how the data happens to arrive.
        order = lambda b: b"\n".join(l for l in b.split(b"\n") if b"[DEBUG]" not in l and b"TLS error" not in l)
        got.append((x.rc, order(norm(x.out, os.fsencode(x.dir), i, prog)), sorted(order(norm(x.err, os.fsencode(x.dir), i, str(hub.port).encode(), prog)).split(b"\n")), cmds))
    for g in got[1:]:
        if g != got[0]:
            raise Violation("send_nsca behaves differently with the replacement functions", f"{kind} {args} {stdin[:300]!r}\nnormally {got[0]!r}\nwith them {g!r}"[:6000], soft=True)
    ctx.count(f"send_nsca runs compared: {kind}")
    ctx.case(("client", k))


def server(ctx, k):
    """A server with and without the replacements."""
    for v in ("rpl-asan", "rplmin-asan"):
        if not binary(ctx, build.server, v, "server"):
            return
    res = []
    for v in ("asan", ["rpl-asan", "rplmin-asan"][k % 2]):
        r = random.Random(f"{ctx.seed}/c31s{k}")
        with Server(ctx, variant=v, loglevel=[5, 4][k % 2], opts=f"max_command_size = {r.choice([300, 5000])}\ntimeout = 60",
                    auth='authorize "*" {\n password = "pw"\n hosts = "h.*"\n services = "s.*@h.*"\n commands = {"ALL;.*", "%s"}\n}\n') as srv:
            answers = []
            for n in range(6):
                try:
                    s = sess(srv.port, identity=r.choice([b"id%d" % n, b"i\xe9%n", b"%s%s"]), key=b"pw" if r.random() < .85 else b"no", moin=False)
                except (Closed, TLSError, ConnectionError):
                    answers.append("refused")
                    continue
                try:
                    for _ in range(r.randint(2, 7)):
                        w = r.choice([b"MOIN 1 abcdefgh", b"moin 1 ABCDEFG/", b"MoIn 1", b"MOI\xce 1 abcdefgh", b"PING 1", b"ping 1", b"NOOP", b"nOoP", b"PUSH 20", b"push 0", b"PUSH 99999999999", b"PUSH x\xff",
                                      b"QUIT", b"quit", b"BAIL why %s", b"what %n", b"", b"\xd0\xd5\xd3\xc8 5"])
                        a = s.cmd(w)
                        if w.lower() == b"push 20" and a == b"OKAY\r\n":
                            s.e.send(r.choice([b"[1234567890] ALL;123\n", b"[1234567890] NO;1234\n", b"xxxxxxxxxxxxxxxxxxx\n", b"\xff" * 20]))
                            a += s.line()
                        answers.append(a)
                except (Closed, TLSError, ConnectionError) as e:
                    answers.append("closed")
                s.close()
            for n in range(4):
                s = sess(srv.port)
                size = r.choice([30, 128, 250, 290])
                s.push(b"[1234567890] ALL;" + b"%d" % n + bytes(r.choice(b"abc%s\xff;") for _ in range(size - 19)) + b"\n")
                s.quit()
            wait_for(lambda: srv.fifo.snapshot().count(b"\n") >= 4, 10)
            gone = [os.fsencode(srv.dir), str(srv.port).encode()]
        lines = srv.stderr().split(b"\n")
        lines = [re.sub(rb"\d+\.\d\.\d\.\d|:\d{4,5}\b|PID:? \d+|\d\.\d+ s", b"N", norm(l, *gone)) for l in lines if b"[DEBUG]" not in l]
        res.append((answers, norm(srv.fifo.snapshot()), sorted(lines)))
    if res[0][:2] != res[1][:2]:
        raise Violation("the server behaves differently with the replacement functions", f"{res[0][:2]!r}\n{res[1][:2]!r}"[:6000])
    a, b = res[0][2], res[1][2]
    only = [l for l in set(a) | set(b) if a.count(l) != b.count(l) and b"SSL" not in l and b"onnection" not in l]
    if only:
        raise Violation("the server logs something else with the replacement functions", repr([(l, a.count(l), b.count(l)) for l in only[:6]]), soft=True)
    ctx.count("server log lines compared", len(a))
    ctx.count("server responses compared", len(res[0][0]))
    ctx.case(("server", k))


def run(ctx):
    hub = cl.Hub(ctx)
    jobs = [(drive, v, k) for v, k in [("rpl-asan", 1), ("rplmin-asan", 2), ("rpl-msan", 3), ("rpl", 4)]]
    jobs += [(daemonise, a, b, c) for a in (0, 1) for b in (0, 1) for c in "xco"]
    jobs += [(sender, hub, k) for k in range(ctx.n(40, 500))] + [(server, k) for k in range(ctx.n(4, 40))]
    if binary(ctx, build.client, "asan", "send_nsca") is None or binary(ctx, build.server, "asan", "server") is None:
        raise build.BuildError("the programs don't build")

    def one(j):
        j[0](ctx, *j[1:])
    ctx.pmap(one, jobs)
    hub.close()
