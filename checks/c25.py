"""C25: send_nsca is memory-safe and always terminates.  Oracle: address and undefined-behaviour
sanitizers, memcheck, exit statuses and the time each run takes."""
import random, threading
from nlib import *
import cl
from c24 import setting_line, value, BAD_LINES
from c23 import Lock, DEV, REFUSE, ODD, ODD_MOIN

TECHNIQUE = "runtime monitoring: sanitizers (ASan, UBSan) and memcheck on send_nsca under fuzzed servers, input, configuration and command lines; termination monitor"
NOTE = ("Hostile servers (random and mutated responses at every point, mutated TLS records, floods), hostile standard input, configuration files and command "
        "lines, small stacks, run against the sanitized client and (fewer) under memcheck; every run must end within the configured timeout plus slack, in "
        "particular when the server stalls at each point or stops reading, and a run that was given up on must not end with status 0.")
RULE = ("one case = one run of send_nsca to its end; distinct = distinct (kind, generated input); non-trivial = every run that started")
ASSUMPTIONS = ["a server that keeps sending something is not 'stalling'"]


def sane(r, what, detail, ended=None, codes=(0, 1)):
    if r.san:
        raise Violation(f"{what}: sanitizer report: " + first_line(r.san), f"{detail}\n{r.san[:6000]}")
    if r.timed_out:
        raise Violation(f"{what}: send_nsca did not end", detail, soft=True)
    if r.rc not in codes:
        raise Violation(f"{what}: exit status {r.rc}", f"{detail}\n{r.err[-600:]!r}")
    m = re.search(rb".*\(null\).*", r.err)
    if m and "(null)" not in detail:
        raise Violation(f"{what}: a null pointer was passed for %s", m.group(0))
    if ended is not None and r.secs > ended:
        raise Violation(f"{what}: took {r.secs:.1f} s", detail, soft=True)


# -- hostile servers -----------------------------------------------------------

def noise(r, n):
    k = r.random()
    if k < .3:
        return bytes(r.randrange(256) for _ in range(n))
    if k < .6:
        return bytes(r.choice(b"OKAYMINFLBP1 \r\n\r\n\0%snd\\\t\xff") for _ in range(n))
    return r.choice([b"A", b"\0", b"\r", b"\n", b"\r\n", b" ", b"OKAY\r\n", b"MOIN 1\r\n", b"%n", b"FAIL ", b"\xff", b"OKAY"]) * (n // 2 + 1)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5])):
        x = r.randrange(6)
        i = r.randrange(len(b) + 1)
        if x == 0 and b:
            b[i % len(b)] = r.randrange(256)
        elif x == 1:
            b[i:i] = bytes([r.choice(b"\0\r\n\t %\xff 1")])
        elif x == 2 and b:
            del b[i % len(b)]
        elif x == 3:
            b[i:i] = noise(r, r.choice([1, 10, 127, 128, 129, 2000]))
        elif x == 4:
            b = b[:i]
        elif x == 5:
            b += b"\r\n" + bytes(b)
    return bytes(b)


def hostile(r):
    """A server that answers oddly from some point on."""
    point = r.randrange(0, 9)
    odd = REFUSE + ODD + ODD_MOIN

    @cl.whole
    def script(ep, rec):
        n = 0
        while True:
            l = ep.readline(20)
            rec["events"].append(("REQ", l))
            if n >= point:
                x = r.random()
                if x < .3:
                    ep.send(r.choice(odd))
                elif x < .6:
                    ep.send(mutate(r, r.choice([b"MOIN 1\r\n", b"OKAY\r\n", b"FAIL x\r\n", b"BAIL y\r\n"])) or b"\r\n")
                elif x < .8:
                    ep.send(noise(r, r.choice([1, 5, 50, 127, 128, 129, 1000, 1920, 2047, 2048, 2049, 5000, 40000])))
                elif x < .9:
                    ep.send_raw(mutate(r, ep.encrypt(b"OKAY\r\n")))
                else:
                    r.choice([DEV["fin"], DEV["rst"], DEV["notify"], DEV["notify_close"], DEV["partial"], DEV["garbage"]])(None, ep, b"OKAY\r\n")
                if r.random() < .5 or ep.sock is None:
                    break
                n += 1
                continue
            n += 1
            if l.startswith(b"MOIN"):
                ep.send(b"MOIN 1\r\n")
            elif l.startswith(b"PUSH"):
                ep.send(b"OKAY\r\n")
                if n >= point:
                    continue
                ep.read(int(l.split()[1]), 20)
                n += 1
                ep.send(b"OKAY\r\n")
            else:
                ep.send(b"OKAY\r\n")
        if ep.sock is not None and r.random() < .7:
            ep.read_to_end(10)
    return script


def server_fuzz(ctx, hubs, seed):
    r = random.Random(f"{ctx.pid}/{ctx.seed}/srv/{seed}")
    hub = r.choice(hubs)
    i = hub.add(hostile(random.Random(r.random())))
    data = b"\x17".join(b"h%d\t0\t%s" % (k, b"x" * r.choice([1, 10, 2000, 40000])) for k in range(r.choice([0, 1, 2, 4])))
    res = cl.send_nsca(ctx, r.choice([[], ["-v"], ["-vvv"], ["-vvvv", "-S"]]), data, cl.conf(i, hub.port, timeout=3), limit=60)
    sane(res, "hostile server", f"seed {seed}")
    ctx.count("hostile servers")
    ctx.case(("srv", seed), True)


def wire_fuzz(ctx, seed):
    """The bytes of the server's half of the connection are changed on the way."""
    r = random.Random(f"{ctx.pid}/{ctx.seed}/wire/{seed}")
    hub = cl.Hub(ctx, version=r.choice(["1.2", "1.3"]))
    i = hub.add(None)
    lst = socket.socket()
    lst.bind(("127.0.0.1", 0))
    lst.listen(1)
    hit = r.choice([r.randrange(0, 90), r.randrange(0, 700), r.randrange(0, 3000)])
    kind = r.choice(["flip", "flip", "cut", "noise", "dup", "drip"])

    def proxy():
        try:
            c, _ = lst.accept()
            s = socket.create_connection(("127.0.0.1", hub.port))
            pos, p = 0, select.poll()
            p.register(c, select.POLLIN)
            p.register(s, select.POLLIN)
            end = time.monotonic() + 20
            while time.monotonic() < end:
                for fd, e in p.poll(500):
                    if fd == c.fileno():
                        d = c.recv(65536)
                        if not d:
                            return
                        s.sendall(d)
                    else:
                        d = s.recv(65536)
                        if not d:
                            return
                        b = bytearray(d)
                        if pos <= hit < pos + len(b):
                            k = hit - pos
                            if kind == "flip":
                                b[k] ^= 1 << r.randrange(8)
                            elif kind == "cut":
                                c.sendall(bytes(b[:k]))
                                return
                            elif kind == "noise":
                                b[k:k] = bytes(r.randrange(256) for _ in range(r.choice([1, 10, 300])))
                            elif kind == "dup":
                                b += b[k:]
                            elif kind == "drip":
                                for x in b:
                                    c.sendall(bytes([x]))
                                    time.sleep(.0005)
                                b = b""
                        pos += len(d)
                        c.sendall(bytes(b))
        except OSError:
            pass
        finally:
            for x in ("c", "s"):
                if x in locals():
                    locals()[x].close()
    t = threading.Thread(target=proxy, daemon=True)
    t.start()
    data = b"\x17".join(b"h%d\t0\t%s" % (k, b"x" * 100) for k in range(3))
    res = cl.send_nsca(ctx, [], data, cl.conf(i, lst.getsockname()[1], timeout=2), limit=60)
    t.join(25)
    lst.close()
    hub.close()
    sane(res, f"server data changed on the wire ({kind} at {hit})", f"seed {seed}", 25)
    acked = sum(1 for x in hub.recs[i] for e in x["events"] if e[0] == "ACK")
    if res.rc == 0 and acked != 3:
        raise Violation(f"exit status 0 with data changed on the wire ({kind} at {hit}), {acked} of 3 acknowledged")
    ctx.count("connections changed on the wire")
    ctx.case(("wire", seed), True)


# -- stalls --------------------------------------------------------------------

def stall_raw(ctx, kind):
    """Stalls before or below the protocol."""
    socks = []
    lst = socket.socket()
    if kind == "stops reading":
        lst.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
    lst.bind(("127.0.0.1", 0))
    lst.listen(0 if kind == "never accepts" else 5)
    port = lst.getsockname()[1]
    done = threading.Event()
    if kind == "never accepts":
        for _ in range(3):          # fill the backlog, so that our SYN is dropped
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex(("127.0.0.1", port))
            socks.append(s)
        time.sleep(.1)

    def go():
        try:
            c, _ = lst.accept()
            socks.append(c)
            if kind == "silent":
                done.wait(40)
                return
            if kind == "reads, never answers":
                c.settimeout(1)
                while not done.is_set():
                    try:
                        if not c.recv(4096):
                            return
                    except socket.timeout:
                        pass
                return
            ep = tlspsk.Endpoint(c, "server", keys=lambda i: b"pw", version="1.2" if "1.2" in kind else "1.3")
            ep.handshake(20)
            if kind.startswith("no MOIN"):
                done.wait(40)
                return
            ep.readline(10)
            ep.send(b"MOIN 1\r\n")
            if kind == "only part of an answer":
                ep.readline(10)
                ep.send(b"OK")
                done.wait(40)
                return
            ep.readline(10)
            ep.send(b"OKAY\r\n")
            if kind == "stops reading":
                done.wait(40)
                return
            ep.read(20 if kind != "QUIT" else 10, 10)
        except (Closed, TimeoutError, TLSError, OSError):
            pass
    t = threading.Thread(target=go, daemon=True)
    if kind != "never accepts":
        t.start()
    data = b"h\t0\t" + b"x" * (3000000 if False else 250000) if kind == "stops reading" else b"h\t0\tok"
    how = "file"
    res = cl.send_nsca(ctx, ["-vvv"], data, cl.conf(b"x", port, timeout=1), limit=30, how=how)
    done.set()
    for s in socks:
        s.close()
    lst.close()
    sane(res, f"server stalls ({kind})", repr(res.err[-500:]), 12, (1,))
    if not res.err.strip():
        raise Violation(f"server stalls ({kind}): no message")
    ctx.count("stalls")
    ctx.case(("stall", kind), True)


def stall_point(ctx, hubs, item):
    point, dev, n = item
    hub = hubs[n % 2]
    lock = Lock(point, DEV[dev], 0, False)
    i = hub.add(lock)
    data = b"\x17".join(b"h%d\t0\tok" % k for k in range(n))
    res = cl.send_nsca(ctx, [], data, cl.conf(i, hub.port, timeout=1), limit=30)
    sane(res, f"server stalls ({dev} at {point})", repr(res.err[-500:]), 12, (1,))
    if not lock.reached:
        raise Violation(f"server never got to {point}", repr(res.err[-500:]), soft=True)
    ctx.count("stalls")
    ctx.case(("stall", str(point), dev, n), True)


def no_notify(ctx, hub):
    """QUIT acknowledged, the connection left open: given up on as well (whatever the status)."""
    @cl.whole
    def script(ep, rec):
        for a in (b"MOIN 1\r\n", b"OKAY\r\n", None, b"OKAY\r\n"):
            if a is None:
                ep.read(len(data) + 0, 10)
            else:
                rec["events"].append(ep.readline(10))
                if a != b"MOIN 1\r\n" and rec["events"][-1].startswith(b"PUSH"):
                    n = int(rec["events"][-1].split()[1])
                    ep.send(a)
                    ep.read(n, 10)
                    ep.send(a)
                    rec["events"].append(ep.readline(10))
                    ep.send(a)
                    time.sleep(20)
                    return
                ep.send(a)
    data = b"h\t0\tok"
    i = hub.add(script)
    res = cl.send_nsca(ctx, [], data, cl.conf(i, hub.port, timeout=1), limit=30)
    sane(res, "QUIT acknowledged, connection left open", repr(res.err[-500:]), 12)
    ctx.case(("stall", "no notify"), True)


def long_credentials(ctx, hub, item, variant="asan"):
    """Identities and keys around what OpenSSL has room for."""
    which, n = item
    i, k = (b"i" * n, b"pw") if which == "identity" else (b"x", b"k" * n)
    res = cl.send_nsca(ctx, [], b"h\t0\tok", cl.conf(i, hub.port, key=k, timeout=5), limit=30, variant=variant)
    sane(res, f"{which} of {n} bytes", repr(res.err[-500:]))
    ctx.count("long credentials")
    ctx.case(("long", which, n), True)


# -- hostile input, configuration and command line ----------------------------

def input_fuzz(ctx, hub, seed, variant="asan", wrapper=(), limit=60):
    r = random.Random(f"{ctx.pid}/{ctx.seed}/in/{seed}")
    n = r.choice([0, 1, 5, 50, 127, 128, 129, 500, 5000, 60000])
    if variant != "asan":
        n = min(n, 5000)
    a = r.choice([bytes(range(256)), b"ab\t\t\x17\n\\\r", b"\t", b"\x17\n\r", b"\\\n", b"h\t0\tx\x17", b"[]1 C;\n", b" \t\n["])
    data = bytes(r.choice(a) for _ in range(n))
    args = r.choice([[], [], ["-C"], ["-C"], ["-d", bytes([r.randrange(1, 256)])], ["-e", bytes([r.randrange(1, 256)])], ["-e", "0x0"], ["-e", "\\n"], ["-vvv"], ["-C", "-vvvv"]])
    i = hub.add(None)
    parts = [data]
    if r.random() < .5 and n:
        k = r.choice([1, 7, 64, 127, 128, 129])
        parts = [data[o:o + k] for o in range(0, n, k)][:400]
        data = b"".join(parts)
    res = cl.send_nsca(ctx, args, parts, cl.conf(i, hub.port, timeout=20), limit=limit, variant=variant, wrapper=wrapper, how=r.choice(["pipe", "file", "socket"]))
    sane(res, "hostile input", f"seed {seed}, {res.argv}, {data[:1000]!r}")
    ctx.count("hostile inputs")
    ctx.case(("in", seed, variant), True)


def many(ctx, hub, item):
    """Very many (blank) records, with a small stack."""
    name, args, data, stack = item

    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))
    i = hub.add(None)
    res = cl.send_nsca(ctx, args, data, cl.conf(i, hub.port, timeout=60), variant="plain", preexec=pre, limit=120, how="file")
    sane(res, name, repr(res.argv), codes=(0,))
    ctx.count("small stacks")
    ctx.case(("many", name), True)


def config_fuzz(ctx, hub, seed, variant="asan", wrapper=(), limit=60):
    r = random.Random(f"{ctx.pid}/{ctx.seed}/cf/{seed}")
    ls = []
    for _ in range(r.choice([0, 1, 3, 8])):
        x = r.random()
        if x < .5:
            k = r.choice(["identity", "password", "port", "server", "timeout", "delay", "tls_ciphers", "encryption_method", "nonsense"])
            ls.append(b"".join(setting_line(r, k, value(r, r.choice([0, 1, 5, 100, 255, 500, 2040, 2046, 2047, 2048, 4000])))))
        elif x < .7:
            ls.append(r.choice(BAD_LINES))
        elif x < .8:
            ls.append(b"#" * r.choice([1, 510, 511, 512, 513, 1023, 1024, 8000]))
        else:
            ls.append(noise(r, r.choice([1, 2, 20, 511, 512, 3000])))
    text = r.choice([b"\n", b"\n", b"\r\n", b"\\\n", b"\\\r\n"]).join(ls)
    if r.random() < .6:
        text = mutate(r, text)
    text += r.choice([b"", b"\n", b"\\", b"\\\n", b"\r", b"\\\r", b"x\\", b"\\\\\n", b"\n\\", b"\\\nx", b"\n\\\n\\\n"])
    if r.random() < .2:
        # a last line just around the size of the buffer
        text += b"\n#" + b"x" * r.choice([507, 508, 509, 510, 511, 1020, 1021, 1022, 1023]) + r.choice([b"", b"\\", b"\r", b"\\\n", b"\r\n", b"\\y", b"\ry"])
    res = cl.send_nsca(ctx, ["-D", "0", "-o", "3", "-H", "127.0.0.1", "-p", str(hub.port)] + r.choice([[], ["-vvv"]]), b"h\t0\tok", text, limit=limit, variant=variant, wrapper=wrapper)
    sane(res, "hostile configuration", f"seed {seed}, {text[:2000]!r}")
    ctx.count("hostile configurations")
    ctx.case(("cf", seed, variant), True)


def argv_fuzz(ctx, hub, seed, variant="asan", wrapper=(), limit=60):
    r = random.Random(f"{ctx.pid}/{ctx.seed}/av/{seed}")
    args = []
    for _ in range(r.choice([0, 1, 2, 4])):
        o = r.choice("CcDdeHhopSstVvx")
        v = r.choice([b"", b"0", b"x", b"\\x41", b"\\0", b"0x7f", b"\\", b"\\\\", b"\\n", b"\\777", b"99999", b"%s%n%s", b"a" * 300, b"a" * 70000, b"\xff\xfe", b"127.0.0.1", b"::1", b"[::1]", b"[", b"]:", b":", b"a:b:c",
                      b"localhost:1", b"/", b"-1", b"1e9", b"0x", b"\\x4142", b"0x12345", b"\\12345", b"     ", b"\t", b"*", b"\n"])
        if o in "Do" and v in (b"99999",):
            v = b"1"
        args.append(b"-" + o.encode() + (v if r.random() < .5 else b""))
        if r.random() < .5:
            args.append(v)
    i = hub.add(None)
    res = cl.send_nsca(ctx, args + ([b"-o", b"2"] if r.random() < .8 else []), b"h\t0\tok\x17\n", cl.conf(i, hub.port, timeout=3), limit=limit, variant=variant, wrapper=wrapper)
    sane(res, "hostile command line", f"seed {seed}, {args!r}"[:3000])
    ctx.count("hostile command lines")
    ctx.case(("av", seed, variant), True)


def odd_start(ctx, hub, kind):
    """Odd circumstances: standard descriptors closed or of odd kinds, few descriptors."""
    i = hub.add(None)

    def pre():
        import resource
        if kind == "no stdin":
            os.close(0)
        elif kind == "no stdout, stderr":
            os.close(1)
            os.close(2)
        elif kind == "nothing open":
            os.closerange(0, 3)
        elif kind == "few descriptors":
            resource.setrlimit(resource.RLIMIT_NOFILE, (5, 5))
        elif kind == "little memory":
            resource.setrlimit(resource.RLIMIT_DATA, (400 * 1024, 400 * 1024))
        elif kind == "write-only stdin":
            fd = os.open("/dev/null", os.O_WRONLY)
            os.dup2(fd, 0)
        elif kind == "/dev/zero":
            fd = os.open("/dev/full", os.O_RDONLY)      # endless zeros: refused as NULs
            os.dup2(fd, 0)
    res = cl.send_nsca(ctx, [], b"h\t0\tok", cl.conf(i, hub.port, timeout=3), variant="plain", preexec=pre, limit=40)
    sane(res, kind, "", 30, (0, 1, 127) if kind == "little memory" else (0, 1))
    if kind in ("write-only stdin", "/dev/zero") and res.rc == 0:
        raise Violation(f"{kind}: exit status 0")
    ctx.case(("start", kind), True)


def nobody(ctx, item):
    """No server there."""
    host, port = item
    res = cl.send_nsca(ctx, ["-vvv"], b"h\t0\tok", cl.conf(b"x", 1, timeout=2, host=host).replace(b"port = 1", b"port = " + port), limit=40)
    sane(res, f"no server ({host} {port})", "", 30, (1,))
    if not res.err.strip():
        raise Violation(f"no server ({host} {port}): no message")
    ctx.case(("nobody", item), True)


def memcheck(ctx, hubs, item):
    kind, seed = item
    w = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=no", "--child-silent-after-fork=yes"]
    kw = dict(variant="plain", wrapper=w, limit=120)
    if kind == "in":
        input_fuzz(ctx, hubs[1], seed, **kw)
    elif kind == "cf":
        config_fuzz(ctx, hubs[1], seed, **kw)
    elif kind == "av":
        argv_fuzz(ctx, hubs[1], seed, **kw)
    else:
        r = random.Random(f"{ctx.pid}/{ctx.seed}/mc/{seed}")
        hub = r.choice(hubs)
        i = hub.add(hostile(random.Random(r.random())) if seed % 2 else None)
        res = cl.send_nsca(ctx, r.choice([[], ["-vvv"], ["-C", "-vvv"]]), b"[1] a\tb\tc\n\x17h\t0\t%s\n" % (b"x" * r.choice([1, 2000, 20000])), cl.conf(i, hub.port, timeout=20), **kw)
        sane(res, "under memcheck", f"seed {seed} {res.err[-3000:]!r}")
    ctx.count("runs under memcheck")


def run(ctx):
    hubs = [cl.Hub(ctx, version="1.2"), cl.Hub(ctx, version="1.3")]
    try:
        ctx.pmap(lambda k: stall_raw(ctx, k), ["never accepts", "silent", "reads, never answers", "no MOIN 1.2", "no MOIN 1.3", "only part of an answer", "stops reading", "no answer to the payload"], workers=16)
        items = [(p, d, n) for p, n in (("MOIN", 1), (("PUSH", 0), 1), (("DATA", 0), 1), (("PUSH", 1), 2), (("DATA", 1), 3), ("QUIT", 0), ("QUIT", 2)) for d in ("stall", "stall_partial")]
        ctx.pmap(lambda k: stall_point(ctx, hubs, k), items, workers=16)
        ctx.pmap(lambda h: no_notify(ctx, h), hubs)
        ctx.pmap(lambda x: long_credentials(ctx, hubs[x[1] % 2], x), [("identity", n) for n in (0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 600, 2040)]
                 + [("password", n) for n in (0, 1, 255, 256, 257, 511, 512, 513, 514, 1000, 2040)])
        ctx.pmap(lambda k: many(ctx, hubs[1], k), [
            ("a million blank records", [], b"\x17" * 1000000 + b"h\t0\tok", 256 * 1024),
            ("a million blank lines", ["-C"], b"\n" * 1000000 + b"[1] C\n", 256 * 1024),
            ("a million blank lines of two kinds", [], b"\r\n\x17" * 300000, 256 * 1024),
            ("a thousand records", [], b"h\t0\tok\x17" * 1000, 256 * 1024)])
        ctx.pmap(lambda k: odd_start(ctx, hubs[1], k), ["no stdin", "no stdout, stderr", "nothing open", "few descriptors", "little memory", "write-only stdin", "/dev/zero"])
        ctx.pmap(lambda k: nobody(ctx, k), [(h, q) for h in (b"127.0.0.1", b"::1", b"'[::1]'", b"no.such.host.invalid", b"255.255.255.255", b"0.0.0.0", b"x" * 300, b"%n%s") for q in (b"1", b"0", b"65535", b"65536", b"http")], workers=16)
        jobs = []
        jobs += [(server_fuzz, (ctx, hubs, k)) for k in range(ctx.n(120, 3000))]
        jobs += [(wire_fuzz, (ctx, k)) for k in range(ctx.n(50, 1200))]
        jobs += [(input_fuzz, (ctx, hubs[1], k)) for k in range(ctx.n(80, 2000))]
        jobs += [(config_fuzz, (ctx, hubs[1], k)) for k in range(ctx.n(200, 5000))]
        jobs += [(argv_fuzz, (ctx, hubs[1], k)) for k in range(ctx.n(120, 3000))]
        jobs += [(memcheck, (ctx, hubs, (k, s + 100000))) for s in range(ctx.n(4, 60)) for k in ("in", "cf", "av", "mc")]
        ctx.rng.shuffle(jobs)
        for o in range(0, len(jobs), 100):
            if ctx.left(60, 840) < 0:
                break
            ctx.pmap(lambda j: j[0](*j[1]), jobs[o:o + 100], workers=10)
    finally:
        for h in hubs:
            h.close()
