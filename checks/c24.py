"""C24: the client's configuration file and options mean what the manual says.  Oracle: identity, key,
address, ciphers and timing as a scripted server sees them, against the meaning of the generated file."""
import random, threading
from nlib import *
import cl
from c22 import notation

TECHNIQUE = "runtime monitoring: effect oracle (what a scripted server observes) over generated configuration files and command lines"
NOTE = ("Random configuration files (quoting, escapes, comments, continuations, CRLF, long lines, any order) whose meaning is known by construction, observed "
        "through the identity, key, address, port, cipher suites and timing of the connection; options against the file; every kind of wrong file or option must "
        "fail with a message and without a connection; verbosity levels nest.")
RULE = ("one case = one run of send_nsca; distinct = distinct configuration text and command line; non-trivial = the settings were observed at the server, "
        "or a wrong configuration was refused without a connection")
ASSUMPTIONS = ["escapes of characters other than quotes and backslashes, and repeated settings, are not judged (the manual does not define them)"]

PLAIN = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&()*+,-./:;<>?@[]^_`{|}~"


def value(r, n, integer=False):
    how = r.random()
    if how < .4:
        a = PLAIN
    elif how < .8:
        a = PLAIN + b"   \t##==\\\\'\"'\""
    else:
        a = bytes(c for c in range(1, 256) if c not in (10, 13))
    return bytes(r.choice(a) for _ in range(n))


def render(r, v):
    """v as a token of the file -> list of pieces which must not be torn apart."""
    special = any(c in b" \t#\"'" for c in v)
    ways = []
    if v and not any(c in b" \t#" for c in v):
        ways.append("bare")
    ways += ["'", '"']
    w = r.choice(ways)
    out = []
    for i, c in enumerate(v):
        b = bytes([c])
        if c == 92:
            out.append(b"\\\\")
        elif w == "bare" and c in b"'\"":
            out.append(b"\\" + b)
        elif w != "bare" and b == w.encode():
            out.append(b"\\" + b)
        elif c in b"'\"" and r.random() < .3:
            out.append(b"\\" + b)
        else:
            out.append(b)
    if w != "bare":
        out = [w.encode()] + out + [w.encode()]
    return out


def ws(r, least=0):
    return b"".join(r.choice([b" ", b"\t"]) for _ in range(max(least, r.choice([0, 0, 0, 1, 1, 2, 5]))))


def comment(r):
    n = r.choice([0, 1, 10, 40, 40, 509, 510, 511, 512, 1023, 5000])
    return b"#" + bytes(r.choice(PLAIN + b" \t'\"#=") for _ in range(n))


def setting_line(r, key, v):
    pieces = [ws(r), key.encode(), ws(r), b"=", ws(r), *render(r, v)]
    x = r.random()
    if x < .2:
        pieces += [ws(r), comment(r)]
    elif x < .5:
        pieces.append(ws(r))
    if r.random() < .1:
        pieces.insert(0, b" " * r.choice([400, 509, 510, 511, 512, 600, 1500]))
    return pieces


def lines(r, settings):
    """-> bytes of a file that holds the settings."""
    out = []
    order = list(settings)
    r.shuffle(order)
    for k in order:
        while r.random() < .3:
            out.append([r.choice([b"", ws(r), ws(r) + comment(r)])])
        out.append(setting_line(r, k, settings[k]))
    while r.random() < .3:
        out.append([r.choice([b"", ws(r), comment(r)])])
    crlf = r.choice([0, 0, 0, 1, .5])
    cont = r.choice([0, 0, 0, .02, .3])
    data = b""
    for n, l in enumerate(out):
        for i, p in enumerate(l):
            # (a piece of white space or a comment may be torn, others stay whole)
            data += p
            if r.random() < cont and not p.endswith(b"\\"):
                data += b"\\" + (b"\r\n" if r.random() < crlf else b"\n")
                if r.random() < .1:
                    data += b"\\" + (b"\r\n" if r.random() < crlf else b"\n")
        if data.endswith(b"\\") and not data.endswith(b"\\\\"):
            data = data[:-1]
        if data.endswith(b"\\"):
            data += b" "
        if n < len(out) - 1 or r.random() < .7:
            data += b"\r\n" if r.random() < crlf else b"\n"
    x = r.random()
    if x < .05:
        data += b"\\\n"
    return data


def one(ctx, hubs, seed):
    r = random.Random(f"{ctx.pid}/{ctx.seed}/{seed}")
    hub = r.choice(hubs)
    tag = b"%d." % seed
    ident = tag + value(r, r.choice([0, 1, 5, 20, 60, 120 - len(tag), 127 - len(tag), 128 - len(tag), 200, 254 - len(tag)]))
    key = value(r, r.choice([1, 2, 8, 30, 100, 200, 255, 256]))
    addr = r.choice(["127.0.0.1", "127.0.0.1", "127.0.0.2", "127.0.0.77", "localhost"])
    st = {"identity": ident, "password": key, "server": addr.encode(), "port": b"%d" % hub.port, "timeout": b"40"}
    args = []
    if r.random() < .3:
        st["encryption_method"] = value(r, r.choice([1, 5, 30, 255, 511, 512, 513, 1023, 1024, 2000]))
    if r.random() < .3:
        st["tls_ciphers"] = r.choice([b"PSK-AES128-CBC-SHA", b"PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA", b"PSK", b":".join([b"PSK-AES256-CBC-SHA"] * r.choice([20, 40, 100])), b"PSK-AES256-CBC-SHA:" + b"NO-SUCH-SUITE:" * r.choice([30, 130]) + b"PSK"])
    if r.random() < .2:
        st["delay"] = b"0"
    if r.random() < .4:
        args += r.choice([lambda x: ["-H", x], lambda x: ["-H" + x]])(addr)
        st["server"] = r.choice([b"no-such-host.invalid", b"127.0.0.1", b""])
        if r.random() < .5:
            del st["server"]
    if r.random() < .4:
        args += r.choice([lambda x: ["-p", x], lambda x: ["-p" + x]])(str(hub.port))
        st["port"] = b"1"
        if r.random() < .5:
            del st["port"]
    if r.random() < .3:
        args += ["-o", r.choice(["30", "0", "2147483647", "030", "089", "0099"])]
        st["timeout"] = r.choice([b"1", b"0"]) if args[-1] != "0" else b"1"
    if r.random() < .3:
        args += ["-D", "0"]
        st["delay"] = r.choice([b"100000", b"2147483647"])
    if r.random() < .2:
        args.insert(0, "-t")
    if r.random() < .2:
        args.append("-S")
    text = lines(r, st)
    hub.add(None, key, ident)
    raw = r.random() < .5
    data = b"[1] X;%d\n" % seed if raw else b"h\t0\t%d" % seed
    res = cl.send_nsca(ctx, args + (["-C"] if raw else []), data, text)
    detail = f"{res.argv}\n{text[:3000]!r}\nmeant {st!r}\nexit {res.rc} {res.err[-400:]!r}"
    if res.san:
        raise Violation("sanitizer report: " + first_line(res.san), detail + "\n" + res.san[:5000])
    if res.timed_out:
        raise Violation("send_nsca did not end", detail, soft=True)
    recs = hub.recs[ident]
    wait_for(lambda: recs and recs[-1].get("done"), 5)
    if res.rc != 0 or len(recs) != 1:
        raise Violation(f"valid configuration: exit status {res.rc}, {len(recs)} connections with the configured identity and key", detail)
    if any(e[0] == "DATA" for e in recs[0]["events"]) is False:
        raise Violation("valid configuration, but nothing submitted", detail)
    got = recs[0].get("local")
    if got and got != ("127.0.0.1" if addr == "localhost" else addr):
        raise Violation(f"connected to {got} instead of {addr}", detail)
    ctx.count("configurations observed")
    ctx.case((text, args), True, text[:200].decode("latin-1") if seed < 6 else None)


BAD_LINES = [
    b"foo = bar", b"ident = x", b"identityx = y", b"passwor = x", b"pass word = x", b"= x", b"=", b"server", b"server x", b"password", b"server =", b"password =  ", b"port = # 5668",
    b"server = a b", b"server = \"a\" b", b"server = \"a\"b", b"password = 'a' 'b'", b"password = x y z", b"timeout = 10 20", b"server = \"a", b"password = 'a", b"password = \"a'", b"server = 'a\\'",
    b"timeout = abc", b"timeout = 10s", b"timeout = \"\"", b"timeout = ''", b"timeout = 1.5", b"timeout = --5", b"timeout = -1", b"delay = -1", b"delay = x", b"delay = \"1 0\"", b"delay = 4294967296",
    b"delay = 99999999999999999999999", b"timeout = 99999999999999999999999", b"delay = 1 # 2\nfoo", b"server: x", b"[section]", b"-identity = x", b"tls_ciphers", b"encryption_method", b"encryption_method =",
    b"encryption_method = 1 2", b"\xef\xbb\xbfidentity2 = x", b"identity identity = x", b"server = \\\n", b"timeout = 0x", b"timeout = 1e3", b"port =", b"delay 5", b"delay = five", b"timeout = '5 '  x",
]

BAD_ARGS = [
    ["-o", "abc"], ["-o", "-1"], ["-o", ""], ["-o", "5s"], ["-o", "99999999999999"], ["-D", "abc"], ["-D", "-3"], ["-D", ""], ["-D", "1x"], ["-D", "4294967296"], ["-d", ""], ["-d", "ab"], ["-d", "\\n"],
    ["-d", "\\27"], ["-d", "027"], ["-d", "0x17"], ["-d", "\\x17"], ["-d", "\\"], ["-d", "\\0"], ["-d", "0x0"], ["-d", "\\x0"], ["-d", "0x0a"], ["-d", "\\012"], ["-d", "0x5c"], ["-d", "0134"], ["-d", "0x80"], ["-d", "0xfff"],
    ["-d", "\\400"], ["-d", "0400"], ["-d", "\\x"], ["-d", "\\q"], ["-d", "08"], ["-d", "tab"], ["-d", "123456"], ["-d", "0x1234"], ["-e", ""], ["-e", "ab"], ["-e", "\\x100"], ["-e", "0x100"], ["-e", "\\q"], ["-e", "0x"],
    ["-e", "newline"], ["-d", ";", "-e", ";"], ["-e", "\\t"], ["-d", "x", "-e", "0x78"], ["-Z"], ["-x", "1"], ["-d"], ["-H"], ["-o"], ["extra"], ["-C", "extra"], ["--", "x"], ["-p"], ["-c"], ["--foo"], ["-d", b"\xc3\xa9"],
]


def refused(ctx, fs, name, args, text, message=True, **kw):
    """Must fail with a message and without any connection."""
    n = len(fs.conns)
    res = cl.send_nsca(ctx, args, b"h\t0\tok", text, **kw)
    detail = f"{res.argv}\n{(text or b'')[:1500]!r}\nexit {res.rc} {res.err[-400:]!r}"
    if res.san:
        raise Violation("sanitizer report: " + first_line(res.san), detail + "\n" + res.san[:5000])
    if res.timed_out:
        raise Violation(f"{name}: send_nsca did not end", detail, soft=True)
    time.sleep(.02)
    if len(fs.conns) != n:
        raise Violation(f"{name}: connected to the server all the same", detail)
    if res.rc <= 0:
        raise Violation(f"{name}: exit status {res.rc}", detail)
    if not res.err.strip():
        raise Violation(f"{name}: no message", detail)
    ctx.count("wrong configurations refused")
    ctx.case((name, text, str(args)), True)


def timing(ctx, item):
    """Time-outs: the server stalls from the start of the session; item = (configured, option, expected, slack)."""
    configured, option, want = item
    gate = threading.Event()

    @cl.whole
    def script(ep, rec):
        l = ep.readline(30)
        if want == 0:
            gate.wait(4)
            polite_rest(ep, rec, l)
        else:
            try:
                ep.read_to_end(60)
            except (Closed, TimeoutError, TLSError):
                pass
    hub = cl.Hub(ctx)
    try:
        i = hub.add(script)
        t = b'identity = "%s"\npassword = pw\nserver = 127.0.0.1\nport = %d\n' % (i, hub.port)
        if configured is not None:
            t += b"timeout = %d\n" % configured
        res = cl.send_nsca(ctx, [] if option is None else ["-o", str(option)], b"h\t0\tok", t, limit=40)
    finally:
        hub.close()
    what = f"timeout {configured} in the file, {option} on the command line, server stalls"
    if want == 0:
        if res.rc != 0:
            raise Violation(f"{what} for 4 s: exit status {res.rc} after {res.secs:.1f} s", res.err[-300:])
    else:
        if res.rc == 0 or res.timed_out or not res.err.strip():
            raise Violation(f"{what}: exit status {res.rc}, {res.secs:.1f} s", res.err[-300:], soft=True)
        if res.secs < want - .1:
            raise Violation(f"{what}: gave up after {res.secs:.2f} s already", res.err[-300:])
        if res.secs > want + 4:
            raise Violation(f"{what}: gave up after {res.secs:.2f} s only", res.err[-300:], soft=True)
    ctx.count("timeouts measured")
    ctx.case(("timeout", item), True)


def polite_rest(ep, rec, first):
    ep.plain = first + ep.plain
    polite(ep, rec)


def delays(ctx, hub, item):
    """Random delays: within the limit, and not always the same."""
    configured, option = item
    limit = option if option is not None else configured
    got = []

    def go(k):
        i = hub.add(None)
        t = cl.conf(i, hub.port, more=b"delay = %d" % configured if configured is not None else b"")
        res = cl.send_nsca(ctx, [] if option is None else ["-D", str(option)], b"h\t0\tok", t, limit=40, variant="plain")
        if res.rc != 0:
            raise Violation(f"delay {item}: exit status {res.rc}", res.err[-300:])
        got.append(res.secs)
    ts = [threading.Thread(target=lambda k=k: err.append(1) if not safe(go, k) else None) for k in range(14)]
    err = []
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err or len(got) < 14:
        raise Violation(f"delay {item}: a run failed")
    if max(got) > limit + 3:
        raise Violation(f"delay of up to {limit} s ({item}): took {max(got):.1f} s", soft=True)
    if limit and max(got) < .25 * limit:
        raise Violation(f"delay of up to {limit} s ({item}): 14 runs took at most {max(got):.2f} s")
    if limit and max(got) - min(got) < .02 * limit:
        raise Violation(f"delay of up to {limit} s ({item}): all of 14 runs took {max(got):.2f} s")
    if limit == 1:
        # (what the same takes without a delay is the measure of this machine's load)
        short, none = [], []

        def measure(k):
            d = "1" if k % 3 else "0"
            res = cl.send_nsca(ctx, ["-D", d], b"h\t0\tok", cl.conf(hub.add(None), hub.port), limit=40, variant="plain")
            (short if d == "1" else none).append(res.secs)
        ctx.pmap(measure, range(36), workers=12)
        if max(short) > 1 + max(none) + .25:
            raise Violation("delay of up to 1 s: exceeded", f"{max(short):.2f} s; without a delay at most {max(none):.2f} s", soft=True)
    ctx.count("delays measured", len(got))
    ctx.case(("delay", item), True)


def safe(f, *a):
    try:
        f(*a)
        return True
    except Exception:
        return False


def hello_suites(b):
    """Cipher suites and versions in a ClientHello."""
    if len(b) < 5 or b[0] != 22:
        return None
    n = struct.unpack(">H", b[3:5])[0]
    if len(b) < 5 + n:
        return None
    p = 5 + 4 + 2 + 32
    p += 1 + b[p]
    m = struct.unpack(">H", b[p:p + 2])[0]
    return [struct.unpack(">H", b[p + 2 + i:p + 4 + i])[0] for i in range(0, m, 2)]


SUITE = {"PSK-AES256-CBC-SHA": 0x8d, "PSK-AES128-CBC-SHA": 0x8c, "PSK-AES128-GCM-SHA256": 0xa8, "PSK-AES256-GCM-SHA384": 0xa9, "PSK-CHACHA20-POLY1305": 0xccab}


def ciphers(ctx, names):
    seen = []

    def raw(c, rec):
        c.settimeout(10)
        b = b""
        while hello_suites(b) is None:
            d = c.recv(4096)
            if not d:
                return
            b += d
        seen.append(hello_suites(b))
    fs = FakeServer(raw, raw=True)
    try:
        more = b'tls_ciphers = "%s"' % ":".join(names).encode() if names else b""
        res = cl.send_nsca(ctx, [], b"h\t0\tok", cl.conf(b"x", fs.port, more=more))
    finally:
        fs.close()
    if not seen or res.rc == 0:
        raise Violation(f"ciphers {names}: no ClientHello or exit status 0", res.err[-300:])
    old = [s for s in seen[0] if s < 0x1300 or s > 0x13ff]
    old = [s for s in old if s not in (0xff, 0x5600)]
    if names:
        want = [SUITE[n] for n in names]
        if old != want:
            raise Violation(f"tls_ciphers {names}: offered {[hex(s) for s in old]}, wanted {[hex(s) for s in want]}")
    else:
        if [s for s in old if s not in (0x8a, 0x8b)] != [0x8d, 0x8c]:
            raise Violation(f"default ciphers: offered {[hex(s) for s in old]}")
    ctx.count("cipher lists observed")
    ctx.case(("ciphers", tuple(names or [])), True)


def verbosity(ctx, hub, seed):
    """-v ... -vvv: messages per submission, nesting; -s and -S."""
    r = random.Random(f"{ctx.pid}/{ctx.seed}/v/{seed}")
    n = r.randrange(1, 6)
    texts = [b"cmd%d;%s" % (k, bytes(r.choice(PLAIN) for _ in range(r.choice([5, 30, 600])))) for k in range(n)]
    data = b"".join(b"[7] " + t + b"\n" for t in texts)
    out = {}
    for level in range(0, 5):
        i = hub.add(None)
        res = cl.send_nsca(ctx, ["-C"] + ["-v"] * level, data, cl.conf(i, hub.port))
        if res.rc != 0:
            raise Violation(f"-v × {level}: exit status {res.rc}", res.err[-300:])
        ls = [l for l in res.err.split(b"\n") if l]
        out[level] = ls
        tr = [l for l in ls if b"[NOTICE]" in l]
        if level == 0 and ls:
            raise Violation("messages on standard error of a successful run without -v", repr(ls[:3]))
        if level >= 1 and (len(tr) != n or any(not (b"[7] " + t in l) for t, l in zip(texts, tr))):
            raise Violation(f"-v × {level}: {len(tr)} messages for {n} commands", repr(ls[:8]))
        if level == 1 and len(ls) != n:
            raise Violation("-v shows other messages as well", repr([l for l in ls if l not in tr][:3]))
        if res.out:
            raise Violation(f"-v × {level}: output on standard output", repr(res.out[:200]))
        ctx.case(("verbosity", level, seed), True)
    kinds = [{re.search(rb"\[([A-Z]+)\]", l).group(1) for l in out[k] if re.search(rb"\[([A-Z]+)\]", l)} for k in range(5)]
    if not (kinds[1] == {b"NOTICE"} and kinds[2] == {b"NOTICE", b"INFO"} and kinds[3] == {b"NOTICE", b"INFO", b"DEBUG"} and kinds[4] == kinds[3]):
        raise Violation("levels of messages with -v, -vv, -vvv, -vvvv", repr(kinds))
    # targets
    for opts, on_stderr, on_syslog in (([], True, False), (["-S"], True, False), (["-s"], False, True), (["-s", "-S"], True, True), (["-S", "-s"], True, True)):
        for good in (True, False):
            i = hub.add(None if good else lambda kind, arg: b"FAIL nope\r\n" if kind == "PUSH" else None)
            d = ctx.dir("slog")
            sl = os.path.join(d, "syslog")
            res = cl.send_nsca(ctx, ["-C", "-v", *opts], data, cl.conf(i, hub.port), variant="plain", env={"LD_PRELOAD": build.shim(), "NSCA_SYSLOG": sl})
            if (res.rc == 0) != good:
                raise Violation(f"{opts}: exit status {res.rc}", res.err[-300:])
            logged = open(sl, "rb").read() if os.path.exists(sl) else b""
            if bool(res.err.strip()) != on_stderr or bool(logged.strip()) != on_syslog:
                raise Violation(f"options {opts}: messages on stderr: {bool(res.err.strip())}, to syslog: {bool(logged.strip())}", repr((res.err[:300], logged[:300])))
            mark = texts[0] if good else b"nope"
            for on, where in ((on_stderr, res.err), (on_syslog, logged)):
                if on and where.count(mark) != 1:
                    raise Violation(f"options {opts}: message {mark[:30]!r} appears {where.count(mark)} times", repr(where[:500]))
            ctx.case(("target", tuple(opts), good, seed), True)
    ctx.count("verbosity series")


def info(ctx, fs, args):
    """-h, --help, -V, --version: output, status 0, no connection."""
    n = len(fs.conns)
    res = cl.send_nsca(ctx, args, b"h\t0\tok")
    if res.rc != 0 or not res.out.strip() or res.err.strip() or len(fs.conns) != n:
        raise Violation(f"{args}: exit status {res.rc}, output {res.out[:100]!r}, {res.err[:100]!r}")
    if args[0] in ("-h", "--help"):
        for o in "CcDdeHhopSstVv":
            if b"-" + o.encode() not in res.out:
                raise Violation(f"{args}: -{o} is not mentioned")
    elif b"send_nsca" not in res.out:
        raise Violation(f"{args}: {res.out!r}")
    ctx.case(("info", tuple(args)), True)


def defaults(ctx, kind):
    """Defaults; the host name is that of a private namespace."""
    names = {"host name": "some-host.example", "long host name": "h" * 60, "short": "x"}
    wrapper = []
    host = socket.gethostname()
    if kind in names:
        if subprocess.run(["unshare", "-Uru", "hostname", "probe"], capture_output=True).returncode == 0:
            host = names[kind]
            wrapper = ["unshare", "-Uru", "sh", "-c", 'hostname "$0" && exec "$@"', host]
        else:
            ctx.count("host name could not be changed")
    default_port = kind == "port and server"
    keys = lambda i: {host.encode(): b"change-me" if kind == "password" else b"pw"}.get(i)
    got = []

    def handler(ep, rec):
        got.append(rec["identity"])
        polite(ep, rec)
    if default_port:
        try:
            fs = FakeServer(handler, keys=keys, port=5668)
        except OSError:
            ctx.count("default port taken")
            return
    else:
        fs = FakeServer(handler, keys=keys)
    try:
        t = b"timeout = 20\n"
        if not default_port:
            t += b"server = 127.0.0.1\nport = %d\n" % fs.port
        if kind != "password":
            t += b"password = pw\n"
        if kind == "default file":
            d = ctx.dir("df")
            os.makedirs(os.path.join(d, "etc"))
            with open(os.path.join(d, "etc", "send_nsca.cfg"), "wb") as f:
                f.write(t)
            res = cl.send_nsca(ctx, [], b"h\t0\tok", wrapper=["sh", "-c", 'cd "$0" && exec "$@"', d])
        else:
            res = cl.send_nsca(ctx, [], b"h\t0\tok", t, wrapper=wrapper)
    finally:
        fs.close()
    if res.rc != 0 or got != [host.encode()]:
        raise Violation(f"default {kind}: exit status {res.rc}, identity {got} instead of {host}", res.err[-300:])
    ctx.count("defaults observed")
    ctx.case(("default", kind), True)


def run(ctx):
    hubs = [cl.Hub(ctx, host="0.0.0.0") for _ in range(2)]
    for h in hubs:
        def handle(ep, rec, h=h):
            rec["local"] = ep.sock.getsockname()[0]
            cl.Hub.handle(h, ep, rec)
        h.fs.handler = handle
    fs = FakeServer(lambda ep, rec: polite(ep, rec))
    r = ctx.rng
    background = []

    def bg(fn, *a):
        t = threading.Thread(target=lambda: background.append((fn.__name__, a, run_bg(ctx, fn, *a))))
        t.start()
        return t
    try:
        slow = [bg(timing, ctx, i) for i in [(None, None, 15), (2, None, 2), (100, 1, 1), (1, 0, 0), (0, None, 0), (None, 3, 3)]]
        slow += [bg(delays, ctx, hubs[0], i) for i in [(2, None), (100000, 1), (None, 3), (100000, 0)]]
        bad = []
        for l in BAD_LINES:
            good = [b"identity = x", b"password = pw", b"server = 127.0.0.1", b"port = %d" % fs.port]
            key = re.match(rb"[a-z_]*", l).group()
            good = [g for g in good if not key or not g.startswith(key + b" ")]
            at = r.randrange(len(good) + 1)
            bad.append((l, [], b"\n".join(good[:at] + [l] + good[at:]) + b"\n"))
        ok = cl.conf(b"x", fs.port, timeout=5)
        for a in BAD_ARGS:
            bad.append((str(a), a, ok))
        bad += [("no such file", ["-c", "/nonexistent/x"], None), ("empty file name", ["-c", ""], None), ("directory", ["-c", "/"], None), ("no default file", [], None),
                ("invalid ciphers", [], ok + b'tls_ciphers = "NO-SUCH-CIPHER"\n'), ("overlong value", [], ok + b"encryption_method = " + b"x" * 5000 + b"\n"),
                ("overlong quoted value", [], ok + b"encryption_method = '" + b"x" * 5000 + b"'\n"),
                ("empty ciphers", [], ok + b'tls_ciphers = ""\n')]
        ctx.pmap(lambda b: refused(ctx, fs, b[0], b[1], b[2]), bad, workers=8)
        os.chmod(ctx.tmp, 0o755)

        def drop():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        pb = build.client("asan")
        try:
            able = subprocess.run([pb, "-V"], preexec_fn=drop, capture_output=True, env={"ASAN_OPTIONS": "detect_leaks=0"}).returncode == 0
        except (OSError, subprocess.SubprocessError):
            able = False
        if able:
            ctx.attempt(refused, ctx, fs, "unreadable file", [], ok, preexec=drop, conf_mode=0o000)
        else:
            ctx.count("unprivileged run not possible")
        ctx.pmap(lambda a: info(ctx, fs, a), [["-h"], ["--help"], ["-V"], ["--version"]])
        ctx.pmap(lambda n: ciphers(ctx, n), [None, ["PSK-AES128-CBC-SHA"], ["PSK-AES256-CBC-SHA"], ["PSK-AES128-CBC-SHA", "PSK-AES256-CBC-SHA"],
                                             ["PSK-AES256-GCM-SHA384", "PSK-AES128-GCM-SHA256"], ["PSK-CHACHA20-POLY1305", "PSK-AES256-CBC-SHA"]])
        ctx.pmap(lambda k: defaults(ctx, k), ["host name", "long host name", "short", "password", "port and server", "default file"])
        ctx.pmap(lambda k: verbosity(ctx, hubs[1], k), range(ctx.n(1, 8)))
        n = ctx.n(350, 8000)
        for o in range(0, n, 100):
            if ctx.left(50, 840) < 0:
                break
            ctx.pmap(lambda k: one(ctx, hubs, k), range(o, min(n, o + 100)))
        for t in slow:
            t.join()
    finally:
        fs.close()
        for h in hubs:
            h.close()


def run_bg(ctx, fn, *a):
    try:
        ctx.attempt(fn, *a)
    except StopCheck:
        pass
    except Exception as e:
        ctx.inconclusive.append(f"{fn.__name__}: {type(e).__name__}: {e}")
