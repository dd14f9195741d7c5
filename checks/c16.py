"""C16: server configuration means what the manual says.  Oracle: a model configuration is rendered in
random ways (order, quoting, comments, environment, includes, overridden by options) and the running
server's behaviour is compared with the model; invalid configurations have to be refused."""
import random, socket, threading
from nlib import *

TECHNIQUE = "runtime monitoring: differential check of the running server's behaviour against a model configuration rendered in random ways"
NOTE = ("Random model configurations are rendered with random order, quoting, comments, environment references, include trees and option overrides; "
        "listening address, limits, keys, log level, ciphers, spool directory, command and PID file of the running server must agree with the model. "
        "Systematically invalid ones must be refused before listen(2).")
RULE = ("one case = one configuration rendered, started and observed (or refused); distinct = distinct configuration texts and options; "
        "non-trivial = at least five effective values were observed, or the refusal's status, message and the absence of a listening socket")
ASSUMPTIONS = ["files of one directory do not set the same variable (their order is not documented)",
               "values of the timeout are observed by C15"]
LEVELS = ["ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"]
CHARS = "abcXYZ0189 _-.,:;/\\\"'#${}()=+*?!%&|~^<>@[]\t\xe4"


def dq(s, env=None):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("${", "\\${") + '"'


def quoting(r, s, env):
    """Some way to write the string."""
    ways = ["dq"]
    if "\\" not in s and "\n" not in s:
        ways.append("sq")
    if re.fullmatch(r"[A-Za-z0-9_.:][A-Za-z0-9_.:-]*", s):
        ways += ["bare", "bare"]
    ways.append("env")
    ways.append("envdef")
    ways.append("cont")
    w = r.choice(ways)
    if w == "dq":
        return dq(s)
    if w == "cont" and len(s) > 1:
        k = r.randrange(1, len(s))
        return dq(s[:k])[:-1] + "\\\n" + dq(s[k:])[1:] if not s[:k].endswith("$") else dq(s)
    if w == "sq":
        return "'" + s.replace("'", "\\'") + "'"
    if w == "bare":
        return s
    if w == "env":
        n = f"V{len(env)}_{r.randrange(1000)}"
        env[n] = s
        return r.choice(['${%s}', '"${%s}"']) % n
    if w == "envdef" and re.fullmatch(r"[A-Za-z0-9_./-]+", s):
        n = f"U{len(env)}_{r.randrange(1000)}"
        if r.random() < 0.5:
            env[n] = s
            return '"${%s:-other}"' % n
        return '"${%s:-%s}"' % (n, s)
    return dq(s)


def rtext(r, lo, hi):
    return "".join(r.choice(CHARS) for _ in range(r.randint(lo, hi)))


def noise(r):
    return r.choice(["", "", "\n", "# comment } \" '\n", "   \t\n", "\n#\n", "#\t authorize \"x\" { password = y\n"])


class Model:
    def __init__(self, ctx, seed):
        r = self.r = random.Random(seed)
        self.ctx = ctx
        self.dir = ctx.dir("m")
        self.env = {}
        self.args = []
        self.port = free_port()
        self.host = r.choice(["127.0.0.1", "127.0.0.1", "localhost", "*", "127.0.0.5"])
        d = self.dir
        self.v = {}
        if r.random() < 0.7:
            self.v["max_command_size"] = r.choice([0, 1, 60, 61, 100, 4000, 16383, 16385, 100000, 3000000])
        if r.random() < 0.8:
            self.v["log_level"] = r.randrange(6)
        if r.random() < 0.5:
            self.v["max_queue_size"] = r.choice([0, 1, 50])
        if r.random() < 0.5:
            self.v["timeout"] = r.choice([0, 30, 29.5, 1e3])
        if r.random() < 0.4:
            self.v["tls_ciphers"] = r.choice(["PSK-AES128-CBC-SHA", "PSK-AES256-CBC-SHA", "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA", "PSK-AES128-GCM-SHA256"])
        if r.random() < 0.5:
            self.v["pid_file"] = os.path.join(d, r.choice(["pid", "my pid", "p'id\""]))
        self.v["temp_directory"] = os.path.join(d, r.choice(["tmp", "t m p", "tmp#1", "t\"'"]))
        os.mkdir(self.v["temp_directory"])
        self.v["command_file"] = os.path.join(d, r.choice(["cmd", "c m d", "c#{}"]))
        self.v["listen"] = f"{self.host}:{self.port}"
        self.ids = {}
        for _ in range(r.choice([1, 2, 4])):
            n = r.choice(["host", "web-1.example.org", "*", rtext(r, 1, 20), rtext(r, 100, 127)])
            if not n.strip():
                n = "x" + n
            self.ids[n] = rtext(r, 1, r.choice([8, 40, 200])) if r.random() < 0.7 else None
        self.globalpw = rtext(r, 1, 20) if None in self.ids.values() or r.random() < 0.3 else None
        # options override the file
        for opt, key in (("-b", "listen"), ("-C", "command_file"), ("-P", "pid_file"), ("-l", "log_level")):
            if key in self.v and r.random() < 0.3:
                self.args += [opt, str(self.v[key])]
                if r.random() < 0.3:
                    self.args = [opt, {"-b": "127.0.0.1:1", "-C": "/nonexistent/z", "-P": os.path.join(d, "never"), "-l": "5"}[opt]] + self.args
                self.v["decoy:" + key] = {"-b": "127.0.0.1:1", "-C": "/nonexistent/x", "-P": os.path.join(d, "never"), "-l": r.choice([0, 5])}[opt] \
                    if r.random() < 0.8 else None

    def statements(self):
        r, out = self.r, []
        sp = lambda: r.choice(["", " ", "  ", "\t", "\n", " \n\t"]) if r.random() < 0.5 else " "
        for k, val in self.v.items():
            if k.startswith("decoy:"):
                continue
            if "decoy:" + k in self.v:
                val = self.v["decoy:" + k]
                if val is None:
                    continue
            t = str(val) if isinstance(val, (int, float)) else quoting(r, val, self.env)
            out.append(f"{sp()}{k}{r.choice([' ', ''])}={sp()}{t}{r.choice(['', ' ', ' # x'])}\n")
        if self.globalpw is not None:
            out.append(f"password = {quoting(r, self.globalpw, self.env)}\n")
        for n, pw in self.ids.items():
            body = ["commands = " + r.choice(['".*"', '{".*"}', "'.*'", '{"nope", ".*"}', '{ "nope" ,\n  ".*"\n}'])]
            if pw is not None:
                body.append("password = " + quoting(r, pw, self.env))
            r.shuffle(body)
            sep = r.choice(["\n", "\n\n", " # c\n"])
            out.append(f"authorize {quoting(r, n, self.env)}{sp()}{{{sep}{sep.join(body)}{sep}}}\n")
        r.shuffle(out)
        return out

    def write(self):
        """-> path to pass with -c"""
        r, d = self.r, self.dir
        st = self.statements()
        base = os.path.join(d, "conf")
        os.mkdir(base)
        self.n = 0

        def name():
            self.n += 1
            return f"f{self.n}"

        def put(path, sts):
            with open(path, "w", encoding="latin-1") as f:
                f.write("".join(noise(r) + s for s in sts) + noise(r))

        def tree(dirpath, sts, depth):
            os.makedirs(dirpath, exist_ok=True)
            # decoys that must not be read
            for dn in r.sample(["README", "x.cfg~", "x.conf.bak", "cfg", "conf", "x.CFG", "x.txt", "a.cfgx", ".cfg.swp", "x.cfg.conf.old"], 3):
                with open(os.path.join(dirpath, dn), "w") as f:
                    f.write(r.choice(["max_command_size = 7\n", "this is not } a configuration\n", "log_level = 5\n"]))
            k = r.choice([1, 2, 3])
            groups = [[] for _ in range(k)]
            for s in sts:
                groups[r.randrange(k)].append(s)
            for g in groups:
                how = r.random()
                if how < 0.25 and depth < 3:
                    tree(os.path.join(dirpath, r.choice([name(), name() + ".d", name() + ".cfg", "d 'q' " + name()])), g, depth + 1)
                elif how < 0.4:
                    t = os.path.join(d, "target" + name())
                    put(t, emit(g, depth + 1))
                    os.symlink(t, os.path.join(dirpath, name() + r.choice([".cfg", ".conf"])))
                elif how < 0.5 and depth < 3:
                    t = os.path.join(d, "tdir" + name())
                    tree(t, g, depth + 1)
                    os.symlink(t, os.path.join(dirpath, name()))
                else:
                    put(os.path.join(dirpath, r.choice(["", "it's ", "a b ", "."]) + name() + r.choice([".cfg", ".conf", ".x.cfg", "..conf"])), emit(g, depth + 1))

        def emit(sts, depth=0):
            """Statements, some of them moved into included files."""
            if depth > 3 or len(sts) < 2 or r.random() < 0.3:
                return sts
            k = r.randrange(1, len(sts))
            mine, rest = sts[:k], sts[k:]
            if r.random() < 0.5:
                p = os.path.join(d, r.choice(["inc", "i n c", "noext."]) + name() + r.choice(["", ".txt", ".cfg"]))
                put(p, emit(rest, depth + 1))
            else:
                p = os.path.join(d, "incd" + name() + r.choice(["", ".cfg"]))
                tree(p, rest, depth + 1)
            inc = r.choice(['include(%s)\n', 'include( %s )\n', 'include (%s)\n']) % dq(p)
            at = r.randrange(len(mine) + 1)
            return mine[:at] + [inc] + mine[at:]

        if r.random() < 0.2:
            p = os.path.join(base, r.choice(["etc", "e t'c"]))
            tree(p, st, 0)
            if r.random() < 0.3:
                os.symlink(p, os.path.join(d, "lnk"))
                p = os.path.join(d, "lnk")
        else:
            p = os.path.join(base, "main" + r.choice([".cfg", ".conf", "", ".txt"]))
            put(p, emit(st))
        self.text = dump(d)
        return p


def dump(d):
    out = []
    for root, ds, fs in os.walk(d, followlinks=False):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if os.path.isfile(p) and os.path.getsize(p) < 5000:
                with open(p, encoding="latin-1") as fh:
                    out.append(f"--- {p}\n{fh.read()}")
    return "\n".join(out)


def listeners(pid):
    """{(address, port)} the process listens on."""
    ino = set()
    for f in os.listdir(f"/proc/{pid}/fd"):
        try:
            ino.add(os.readlink(f"/proc/{pid}/fd/{f}"))
        except OSError:
            pass
    out = set()
    for fn in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(fn) as fh:
                for l in fh:
                    w = l.split()
                    if len(w) > 9 and w[3] == "0A" and f"socket:[{w[9]}]" in ino:
                        a, p = w[1].split(":")
                        if len(a) == 8:
                            a = socket.inet_ntoa(bytes.fromhex(a)[::-1])
                        out.add((a, int(p, 16)))
        except OSError:
            pass
    return out


def launch(ctx, d, argv, env=None, variant="plain", text=True, preexec=None):
    srv = Server(ctx, dir=d, start=False, fifo=False, variant=variant)
    e = srv.environ()
    e.update(env or {})
    if text:
        e["NSCAMON_TEXT"] = "1"
    srv.err = os.path.join(d, "stderr")
    with open(srv.err, "wb") as ef:
        srv.p = ctx.spawn([build.server(variant), *argv], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, cwd=d, preexec_fn=preexec)
    return srv


def enc(s):
    return s.encode("latin-1")


def model(ctx, seed):
    m = Model(ctx, seed)
    path = m.write()
    v, r = m.v, m.r
    env = {k: val for k, val in m.env.items()}
    d = m.dir
    fifo = Fifo(v["command_file"])
    run = os.path.join(d, "run")
    os.mkdir(run)
    args = ["-F", "-c", path] + m.args
    srv = launch(ctx, run, args, {os.fsencode(k): enc(x) for k, x in env.items()} and {k: enc(x).decode("utf-8", "surrogateescape") for k, x in env.items()})
    tag = f"seed {seed}: {args}"
    detail = f"{tag}\nenv {env}\n{m.text}"[:6000]
    srv.fifo = fifo
    srv.port = m.port
    seen = 0
    try:
        if not wait_for(lambda: srv.p.poll() is not None or listening(m.port), 20):
            raise Violation("the server does not listen where it is configured to", f"{listeners(srv.p.pid)} instead of {v['listen']}; {detail}", soft=True)
        if srv.p.poll() is not None:
            if b"in use" in srv.stderr():
                raise Inconclusive("port taken")
            raise Violation("a valid configuration was refused", f"{srv.stderr().decode('latin-1')}\n{detail}")
        wait_for(lambda: b"starting up" in srv.stderr(), 0.5)
        ls = listeners(srv.p.pid)
        want = {"localhost": "127.0.0.1", "*": "0.0.0.0"}.get(m.host, m.host)
        if len(ls) != 1 or list(ls)[0][1] != m.port or list(ls)[0][0] != want and not (m.host in ("*", "localhost") and len(list(ls)[0][0]) == 32):
            raise Violation("the server listens on another address", f"{ls} instead of {v['listen']}; {detail}")
        seen += 1
        addr = "127.0.0.5" if m.host == "127.0.0.5" else "127.0.0.1"
        if "0" * 24 in list(ls)[0][0] and m.host == "localhost":
            addr = "::1"
        # PID file
        if "pid_file" in v:
            if not os.path.exists(v["pid_file"]) or not wait_for(lambda: open(v["pid_file"]).read().strip() == str(srv.p.pid), 2):
                raise Violation("the PID file is not where it is configured to be", f"{v['pid_file']}; {detail}")
            seen += 1
        if os.path.exists(os.path.join(d, "never")):
            raise Violation("an overridden PID file was written", detail)
        # keys
        ciph = v.get("tls_ciphers", "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA")
        allc = "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:PSK-AES128-GCM-SHA256:PSK-AES256-GCM-SHA384"
        for n, pw in m.ids.items():
            key = pw if pw is not None else m.globalpw
            ident = "somebody else" if n == "*" else n
            if n == "*" and ident in m.ids:
                continue
            e = tlspsk.connect(m.port, enc(ident), enc(key), 20, host=addr, version=r.choice(["1.2", "1.2", "1.3"]), ciphers=allc)
            try:
                e.handshake(20)
                s = Sess(e).moin()
            except (Closed, TLSError) as x:
                raise Violation("the configured password is not accepted", f"{ident!r} {key!r}: {x}; {detail}")
            bad = key + "x" if len(key) < 200 else key[:-1]
            try:
                w = tlspsk.connect(m.port, enc(ident), enc(bad), 20, host=addr, version="1.2", ciphers=allc)
                w.handshake(20)
                w.send(b"MOIN 1 abcd\r\n")
                w.readline(5)
                raise Violation("another password than the configured one is accepted", f"{ident!r} {bad!r}; {detail}")
            except (Closed, TLSError):
                pass
            seen += 1
        # ciphers
        for c in allc.split(":"):
            try:
                w = tlspsk.connect(m.port, enc(ident), enc(key), 20, host=addr, version="1.2", ciphers=c)
                w.handshake(20)
                ok = True
                w.close()
            except (Closed, TLSError):
                ok = False
            if ok != (c in ciph.split(":")):
                raise Violation("the accepted cipher suites are not the configured ones", f"{c} {'accepted' if ok else 'refused'}, configured {ciph}; {detail}")
        seen += 1
        # size limit
        mx = v.get("max_command_size", 16384)
        if mx:
            if not s.cmd(b"PUSH %d" % (mx + 1)).startswith(b"FAIL"):
                raise Violation("the size limit is not the configured one", f"PUSH {mx + 1} accepted, limit {mx}; {detail}")
        z = mx or 3000000
        if s.cmd(b"PUSH %d" % z) != b"OKAY\r\n":
            raise Violation("the size limit is not the configured one", f"PUSH {z} refused, limit {mx}; {detail}")
        p = b"[1500000000] C;" + b"y" * z
        s.e.send(p[:z - 1] + b"\n")
        a = s.line()
        if z > 16 and a != b"OKAY\r\n":
            raise Violation("an authorised command was refused", f"{a!r}; {detail}")
        seen += 1
        spool = z > 4096
        if z > 60:
            if s.push(b"[1500000000] C;last\n") != b"OKAY\r\n":
                raise Violation("an authorised command was refused", detail)
            if not srv.wait_fifo(lambda b: b.count(b"\n") >= 2 or b"last" in b):
                raise Violation("nothing arrives in the configured command file", f"{v['command_file']}; {detail}", soft=True)
            if spool:
                if not srv.wait_fifo(lambda b: b"PROCESS_FILE;" in b):
                    raise Violation("a large command did not arrive", detail, soft=True)
                for x in re.findall(rb"PROCESS_FILE;(.*);1\n", srv.fifo.snapshot()):
                    if os.path.dirname(x) != enc(v["temp_directory"]):
                        raise Violation("a temporary file was written somewhere else", f"{x!r} instead of {v['temp_directory']!r}; {detail}")
                    seen += 1
        # log level
        s.cmd(b"nonsense")
        s.push(b"[1500000000] C;x\n")
        s.quit()
        srv.stop()
        lv = v.get("log_level", 3)
        out = srv.stderr().decode("latin-1")
        got = {l for l in LEVELS if f"[{l}]" in out}
        want = set(LEVELS[1:lv]) if lv > 1 else set()
        if got - {"ERROR"} != want:
            raise Violation("the log level is not the configured one", f"level {lv}: {sorted(got)}; {detail}")
        seen += 1
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
        fifo.shutdown()
    ctx.case(m.text + repr(m.args), seen >= 5, {"options": m.args, "configuration": m.text[:700]} if int(str(seed).split("/")[-1]) < 2 else None)
    ctx.count("configurations observed")
    ctx.count("effective values compared", seen)
    ctx.count("files read", m.n + 1)
    shutil.rmtree(d, ignore_errors=True)


GOOD = 'authorize "id" {\n password = "pw"\n commands = ".*"\n}\n'


def invalid_cases(r):
    """name -> (text, extra args) or a function of the directory"""
    C = {}
    C["no authorize section"] = "log_level = 3\n"
    C["empty file"] = ""
    C["no password"] = 'authorize "id" {\n commands = ".*"\n}\n'
    C["catch-all without a password"] = GOOD + 'authorize "*" {\n commands = ".*"\n}\n'
    C["only a catch-all, without a password"] = 'authorize "*" {\n commands = ".*"\n}\n'
    C["one of several without a password"] = GOOD + 'authorize "two" {\n commands = ".*"\n}\n'
    C["empty section"] = 'authorize "id" {\n}\n'
    for k in ("log_level", "max_command_size", "max_queue_size", "timeout"):
        for v in ("-1", "-2147483648") + (("-0.5", "-1e3") if k == "timeout" else ()):
            C[f"{k} = {v}"] = f"{k} = {v}\n" + GOOD
            C[f"{k} = {v} at the end"] = GOOD + f"{k} = {v}\n"
        C[f"{k} = abc"] = f"{k} = abc\n" + GOOD
        C[f"{k} = (nothing)"] = f"{k} = \n" + GOOD
    for k in ("commands", "hosts", "services"):
        for p in ("(", "[a-", "a{2,1}", "[[:nope:]]", "(a"):
            C[f"{k} pattern {p}"] = 'authorize "id" {\n password = "pw"\n %s = "%s"\n}\n' % (k, p)
            C[f"{k} pattern {p} in a list"] = 'authorize "id" {\n password = "pw"\n %s = {"ok", "%s"}\n}\n' % (k, p)
            C[f"global {k} pattern {p}"] = '%s = "%s"\nauthorize "id" {\n password = "pw"\n}\n' % (k, p)
            C[f"global {k} pattern {p} in a list"] = 'authorize "id" {\n password = "pw"\n}\n%s = {"ok", "%s"}\n' % (k, p)
    for k in ("nonsense", "Log_Level", "log-level", "port", "authorise", "max_command_sizes"):
        C[f"unknown setting {k}"] = f"{k} = 1\n" + GOOD
        C[f"unknown setting {k} at the end"] = GOOD + f"{k} = 1\n"
    for k in ("nonsense", "timeout", "listen", "command"):
        C[f"unknown setting {k} in a section"] = f'authorize "id" {{\n password = "pw"\n {k} = 1\n}}\n'
    C["duplicate identity"] = GOOD + 'authorize "other" {\n password = "x"\n}\n' + GOOD
    C["duplicate identity, other password"] = GOOD + 'authorize id {\n password = "x"\n}\n'
    C["duplicate *"] = 'authorize "*" {\n password = "x"\n}\nauthorize "*" {\n password = "y"\n}\n'
    C["missing include"] = 'include("/nonexistent/file.cfg")\n' + GOOD
    C["include without argument"] = "include()\n" + GOOD
    C["include of a device"] = 'include("/dev/null")\n' + GOOD
    C["two includes at once"] = 'include("/etc/hosts", "/etc/passwd")\n' + GOOD
    C["stray brace"] = GOOD + "}\n"
    C["section without a title"] = 'authorize {\n password = "pw"\n}\n'
    C["unclosed string"] = 'password = "pw\n' + GOOD
    C["assignment without a value"] = 'password\n' + GOOD
    C["bad ciphers"] = 'tls_ciphers = "NO-SUCH-CIPHER"\n' + GOOD
    C["missing temporary directory"] = 'temp_directory = "/nonexistent/tmp"\n' + GOOD
    C["missing temporary directory, last"] = GOOD + 'temp_directory = "/nonexistent/tmp"\n'
    C["missing PID file directory"] = 'pid_file = "/nonexistent/pid"\n' + GOOD
    C["unresolvable address"] = (GOOD, ["-b", "no.such.host.invalid:%PORT%"])
    C["nonexistent service"] = (GOOD, ["-b", "127.0.0.1:no-such-service"])
    C["foreign address"] = (GOOD, ["-b", "192.0.2.1:%PORT%"])
    C["unknown option"] = (GOOD, ["-x"])
    C["extra argument"] = (GOOD, ["extra"])
    C["extra argument after --"] = (GOOD, ["--", "extra"])
    C["option without its argument"] = (GOOD, ["-l"])
    for x in ("-1", "-2147483648", "abc", "3x", ""):
        C[f"option -l {x}"] = (GOOD, ["-l", x])
    C["missing configuration file"] = (None, ["-c", "/nonexistent/c.cfg"])
    return C


def invalid(ctx, name, spec):
    d = ctx.dir("inv")
    text, extra = spec if isinstance(spec, tuple) else (spec, [])
    port = free_port()
    c = os.path.join(d, "c.cfg")
    base = f"command_file = {q(os.path.join(d, 'cmd'))}\n" + ("" if "temp_directory" in (text or "") else f"temp_directory = {q(d)}\n")
    form = hash_of(name) % 3
    if text is not None:
        body = base + text
        if form == 1 and "include" not in text:
            with open(os.path.join(d, "sub.cfg"), "w") as f:
                f.write(text)
            body = base + f'include("{d}/sub.cfg")\n'
        elif form == 2 and "include" not in text and "}" in text:
            os.mkdir(os.path.join(d, "sub"))
            with open(os.path.join(d, "sub", "x.conf"), "w") as f:
                f.write(text)
            body = base + f'include("{d}/sub")\n'
        with open(c, "w") as f:
            f.write(body)
    args = ["-F", "-c", c, "-b", f"127.0.0.1:{port}"] + [a.replace("%PORT%", str(port)) for a in extra]
    srv = launch(ctx, d, args)
    try:
        srv.p.wait(20)
    except subprocess.TimeoutExpired:
        served = listening(port)
        srv.p.kill()
        raise Violation(f"an invalid configuration was accepted: {name}", f"listening: {served}; {args}\n{text}\n{srv.stderr().decode('latin-1')[-800:]}", soft=not served)
    out = srv.stderr().decode("latin-1")
    msgs = [l for l in out.splitlines() if not l.startswith("NSCAMON")]
    if srv.p.returncode == 0 or srv.p.returncode < 0:
        raise Violation(f"an invalid configuration did not fail: {name}", f"status {srv.p.returncode}; {args}\n{text}\n{out[-800:]}")
    if not msgs:
        raise Violation(f"an invalid configuration was refused without a message: {name}", f"{args}\n{text}")
    if re.search(r"^NSCAMON listen", out, re.M) or "starting up" in out:
        raise Violation(f"the server listened before it refused an invalid configuration: {name}", f"{args}\n{text}\n{out[-800:]}")
    ctx.case(("invalid", name))
    ctx.count("invalid configurations refused")
    shutil.rmtree(d, ignore_errors=True)


def hash_of(s):
    import zlib
    return zlib.crc32(s.encode())


def unusable_temp(ctx, how):
    """As an unprivileged user."""
    d = ctx.dir("tmpd")
    os.chmod(d, 0o777)
    t = os.path.join(d, "t")
    if how == "file":
        open(t, "w").close()
    else:
        os.mkdir(t)
        os.chmod(t, {"readonly": 0o555, "nosearch": 0o666, "root's": 0o755, "fine": 0o777}[how])
    c = os.path.join(d, "c.cfg")
    with open(c, "w") as f:
        f.write(f"command_file = {q(os.path.join(d, 'cmd'))}\ntemp_directory = {q(t)}\n" + GOOD)
    os.chmod(c, 0o644)
    port = free_port()

    def pre():
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    try:
        srv = launch(ctx, d, ["-F", "-c", c, "-b", f"127.0.0.1:{port}"], preexec=pre)
    except Exception as e:
        raise Inconclusive(f"cannot switch to an unprivileged user: {e}")
    ok = wait_for(lambda: srv.p.poll() is not None or listening(port), 20)
    try:
        if how == "fine":
            if srv.p.poll() is not None:
                if "Permission" in srv.stderr().decode("latin-1"):
                    raise Inconclusive("unprivileged user cannot run the server here: " + srv.stderr().decode("latin-1")[-300:])
                raise Violation("a usable temporary directory was refused", srv.stderr().decode("latin-1")[-800:])
        elif srv.p.poll() is None:
            raise Violation(f"an unusable temporary directory was accepted: {how}", srv.stderr().decode("latin-1")[-800:])
        elif srv.p.returncode == 0 or not srv.stderr() or b"NSCAMON listen" in srv.stderr():
            raise Violation(f"an unusable temporary directory was not refused properly: {how}", f"{srv.p.returncode} {srv.stderr()[-800:]!r}")
    finally:
        srv.p.kill()
        srv.p.wait()
    ctx.case(("temp", how))
    ctx.count("temporary directories as an unprivileged user")


def defaults(ctx):
    """Nothing but one section: the documented defaults."""
    d = ctx.dir("dflt")
    c = os.path.join(d, "c.cfg")
    with open(c, "w") as f:
        f.write(GOOD)
    before = set(os.listdir("/tmp"))
    for _ in range(3):
        srv = launch(ctx, d, ["-F", "-c", c, "-C", os.path.join(d, "cmd")], text=False)
        fifo = Fifo(os.path.join(d, "cmd"), create=not os.path.exists(os.path.join(d, "cmd")))
        srv.fifo = fifo
        wait_for(lambda: srv.p.poll() is not None or listening(5668), 20)
        if srv.p.poll() is not None and (b"bind" in srv.stderr() or b"in use" in srv.stderr()):
            fifo.shutdown()
            time.sleep(3)
            continue
        break
    else:
        raise Inconclusive("port 5668 is taken")
    try:
        if srv.p.poll() is not None:
            raise Violation("a minimal configuration was refused", srv.stderr()[-800:].decode("latin-1"))
        ls = listeners(srv.p.pid)
        if len(ls) != 1 or list(ls)[0] not in (("0.0.0.0", 5668), ("0" * 32, 5668)):
            raise Violation("the default listening address is not *:5668", f"{ls} {srv.stderr()[-500:]}")
        srv.port = 5668
        s = sess(5668)
        if not s.cmd(b"PUSH 16385").startswith(b"FAIL") or s.cmd(b"PUSH 16384") != b"OKAY\r\n":
            raise Violation("the default command size limit is not 16384", f"{s.log[-4:]}")
        s.e.send(b"[1500000000] C;" + b"y" * (16384 - 16) + b"\n")
        if s.line() != b"OKAY\r\n":
            raise Violation("an authorised command was refused", repr(s.log[-1]))
        s.cmd(b"nonsense")
        def spooled():
            m = re.findall(rb"PROCESS_FILE;(.*);1\n", fifo.snapshot())
            return m
        if not wait_for(lambda: (time.sleep(0), spooled())[1], 25):
            raise Violation("a large command did not arrive", srv.stderr()[-500:], soft=True)
        for x in spooled():
            if os.path.dirname(x) != b"/tmp":
                raise Violation("the default temporary directory is not /tmp", repr(x))
            if re.fullmatch(rb"/tmp/nsca\.\w{6}", x):
                os.unlink(x)
        srv.stop()
        got = {l for l in LEVELS if f"[{l}]".encode() in srv.stderr()}
        if got - {"ERROR"} != {"WARNING", "NOTICE"}:
            raise Violation("the default log level is not 3", f"{got}")
        ctx.case("defaults")
        ctx.count("defaults")
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
        fifo.shutdown()


def default_command_file(ctx):
    """The built-in path (of this build) is the one opened."""
    d = ctx.dir("dfcf")
    c = os.path.join(d, "c.cfg")
    with open(c, "w") as f:
        f.write(GOOD)
    port = free_port()
    srv = launch(ctx, d, ["-F", "-c", c, "-b", f"127.0.0.1:{port}"], text=False)
    try:
        wait_for(lambda: srv.p.poll() is not None or listening(port), 20)
        if b"/nonexistent/var/nagios/rw/nagios.cmd" not in srv.stderr():
            raise Violation("the default command file is not LOCALSTATEDIR/nagios/rw/nagios.cmd", srv.stderr()[-500:])
        ctx.case("default command file")
    finally:
        srv.p.kill()
        srv.p.wait()
    srv = launch(ctx, d, ["-F", "-b", f"127.0.0.1:{port}"], text=False)
    srv.p.wait(20)
    if srv.p.returncode != 1 or b"/proc/self/cwd/etc/nsca-ng.cfg" not in srv.stderr():
        raise Violation("the default configuration file is not SYSCONFDIR/nsca-ng.cfg", f"{srv.p.returncode} {srv.stderr()[-500:]}")
    ctx.case("default configuration file")


def default_port(ctx):
    """An address without a port."""
    d = ctx.dir("dp")
    c = os.path.join(d, "c.cfg")
    for k, (conf, args, want) in enumerate([("listen = 127.0.0.9\n", [], "127.0.0.9"), ('listen = "127.0.0.1:1"\n', ["-b", "127.0.0.10"], "127.0.0.10"),
                                            ("listen = localhost\n", ["-b", "127.0.0.11"], "127.0.0.11")]):
        with open(c, "w") as f:
            f.write(f"temp_directory = {q(d)}\n" + conf + GOOD)
        srv = launch(ctx, d, ["-F", "-c", c, "-C", os.path.join(d, "cmd"), *args], text=False)
        try:
            wait_for(lambda: srv.p.poll() is not None or listeners(srv.p.pid), 20)
            if srv.p.poll() is not None:
                if b"Cannot bind" in srv.stderr():
                    raise Inconclusive("port 5668 is taken")
                raise Violation("an address without a port was refused", srv.stderr()[-500:])
            if listeners(srv.p.pid) != {(want, 5668)}:
                raise Violation("an address without a port does not get the default port", f"{conf} {args}: {listeners(srv.p.pid)}")
            ctx.case(("default port", k))
        finally:
            srv.p.kill()
            srv.p.wait()
    # a service name
    try:
        name, num = next((n, socket.getservbyname(n, "tcp")) for n in ("postgresql", "x11-6", "mysql", "amqp", "svn", "nsca", "isns") if known_service(n))
    except StopIteration:
        return
    srv = launch(ctx, d, ["-F", "-c", c, "-C", os.path.join(d, "cmd"), "-b", f"127.0.0.12:{name}"], text=False)
    try:
        wait_for(lambda: srv.p.poll() is not None or listeners(srv.p.pid), 20)
        if srv.p.poll() is None and listeners(srv.p.pid) != {("127.0.0.12", num)}:
            raise Violation("a service name is not accepted as port", f"{name}: {listeners(srv.p.pid)}")
        if srv.p.poll() is not None:
            raise Violation("a service name is not accepted as port", f"{name}: {srv.stderr()[-500:]}")
        ctx.case(("service", name))
    finally:
        srv.p.kill()
        srv.p.wait()


def known_service(n):
    try:
        socket.getservbyname(n, "tcp")
        return True
    except OSError:
        return False


def continuation(ctx):
    """The manual: a backslash at the end of a line continues the line."""
    d = ctx.dir("cont")
    c = os.path.join(d, "c.cfg")
    with open(c, "w") as f:
        f.write(f"temp_directory = {q(d)}\nmax_command_size = \\\n 500\n" + GOOD)
    port = free_port()
    srv = launch(ctx, d, ["-F", "-c", c, "-C", os.path.join(d, "cmd"), "-b", f"127.0.0.1:{port}"], text=False)
    try:
        wait_for(lambda: srv.p.poll() is not None or listening(port), 20)
        ctx.case("continuation")
        if srv.p.poll() is not None:
            ctx.violation("a line continued outside a quoted string is refused", srv.stderr().decode("latin-1"), key="continuation-outside-string")
    finally:
        srv.p.kill()
        srv.p.wait()


def override(ctx):
    """Later values win, also across includes: "as if those contents had appeared" there."""
    d = ctx.dir("ovr")
    c, i = os.path.join(d, "c.cfg"), os.path.join(d, "i.cfg")
    sub = os.path.join(d, "sub")
    os.mkdir(sub)
    for k, (main, inc, want) in enumerate([
            ("max_command_size = 100\ninclude(%s)\n", "max_command_size = 200\n", 200),
            ("include(%s)\nmax_command_size = 100\n", "max_command_size = 200\n", 100),
            ("max_command_size = 50\ninclude(%s)\nlog_level = 2\n", "max_command_size = 200\n", 200)]):
        for how in ("file", "dir"):
            t = i if how == "file" else os.path.join(sub, "x.conf")
            with open(t, "w") as f:
                f.write(inc)
            with open(c, "w") as f:
                f.write(f"temp_directory = {q(d)}\n" + main % q(i if how == "file" else sub) + GOOD)
            port = free_port()
            srv = launch(ctx, d, ["-F", "-c", c, "-C", os.path.join(d, "cmd"), "-b", f"127.0.0.1:{port}"], text=False)
            try:
                if not wait_for(lambda: srv.p.poll() is not None or listening(port), 20) or srv.p.poll() is not None:
                    raise Violation("a valid configuration was refused", srv.stderr()[-500:])
                s = sess(port)
                if not s.cmd(b"PUSH %d" % (want + 1)).startswith(b"FAIL") or s.cmd(b"PUSH %d" % want) != b"OKAY\r\n":
                    raise Violation("an include does not act at the point where it appears", f"{how} {k}: {s.log[-3:]}")
                s.close()
                ctx.case(("override", k, how))
            finally:
                srv.p.kill()
                srv.p.wait()


def many(ctx, n, any_):
    """Hundreds and thousands of sections, over several files: each one counts."""
    r = random.Random(f"{ctx.seed}/many{n}")
    d = ctx.dir("many")
    sub = os.path.join(d, "sub")
    os.mkdir(sub)
    names = [(f"h{i}.example.org", f"{'x' * (i % 90)}{i}", f"Host number {i}", f"%d{i}")[i % 4] for i in range(n)]
    files = ["", "", "", ""]
    for i, x in enumerate(names):
        own = i % 7 != 3
        files[i * 4 // n] += f"authorize {q(x)} {{\n" + (f" password = {q(f'key {i}')}\n" if own else "") + f" commands = {q(f'OWN{i}')}\n}}\n"
    if any_:
        files[2] += 'authorize "*" {\n password = "anybody"\n commands = "ANY"\n}\n'
    c = os.path.join(d, "c.cfg")
    for k in (1, 2, 3):
        with open(os.path.join(sub, f"{k}.conf"), "w") as f:
            f.write(files[k])
    with open(c, "w") as f:
        f.write(f"temp_directory = {q(d)}\npassword = \"common\"\n{files[0]}include({q(sub)})\n")
    port = free_port()
    fifo = Fifo(os.path.join(d, "cmd"))
    srv = launch(ctx, d, ["-F", "-c", c, "-C", fifo.path, "-b", f"127.0.0.1:{port}"], text=False)
    srv.fifo, srv.port = fifo, port
    try:
        if not wait_for(lambda: srv.p.poll() is not None or listening(port), 60) or srv.p.poll() is not None:
            if b"in use" in srv.stderr():
                raise Inconclusive("port taken")
            raise Violation("a valid configuration was refused", f"{n} sections: {srv.stderr()[-500:]!r}")
        for i in sorted({0, 1, 2, 3, n - 1, n // 2, *r.sample(range(n), min(n, ctx.n(40, 200)))}):
            key = f"key {i}" if i % 7 != 3 else "common"
            try:
                s = sess(port, enc(names[i]), enc(key), 20, version=r.choice(["1.2", "1.3"]))
            except (Closed, TLSError) as x:
                raise Violation("the configured password is not accepted", f"section {i} of {n}, {names[i]!r}: {x}")
            a, b = s.push(b"[1500000000] OWN%d\n" % i), s.push(b"[1500000000] OWN%d\n" % ((i + 1) % n))
            if a != b"OKAY\r\n" or not b.startswith(b"FAIL"):
                raise Violation("a section does not have the configured permissions", f"section {i} of {n}, {names[i]!r}: {a!r} {b!r}")
            s.quit()
            ctx.case(("section", n, i))
        try:
            s = sess(port, b"in none of them", b"anybody", 20, version="1.2")
            if not any_:
                raise Violation("an identity without a section is accepted", f"{n} sections")
            if s.push(b"[1500000000] ANY\n") != b"OKAY\r\n":
                raise Violation("a section does not have the configured permissions", f'"*" besides {n} sections')
            s.quit()
        except (Closed, TLSError) as x:
            if any_:
                raise Violation("the configured password is not accepted", f'"*" besides {n} sections: {x}')
        ctx.count("sections of large configurations", n)
    finally:
        srv.p.kill()
        srv.p.wait()
        fifo.shutdown()


def tree(ctx, n, depth):
    """Directories with thousands of files, and nested ones: all of them are read."""
    r = random.Random(f"{ctx.seed}/tree{n}")
    d = ctx.dir("tree")
    top = os.path.join(d, "conf.d")
    dirs, p = [], top
    for k in range(depth):
        os.mkdir(p)
        dirs.append(p)
        p = os.path.join(p, "d%d" % k)
    wide = os.path.join(top, "wide")
    os.mkdir(wide)
    where = {}
    # Names that mean something in the configuration's syntax.
    for x in ("it's", "back\\slash", "a\\'b", 'q"q', "sp ace", "$HOME", "${HOME}", "#x", "{y}", "f\xfcnf", "end\\", "\\n", "'", "(x)", "x.cfg", ".hidden", "x=y;z"):
        os.mkdir(os.path.join(top, x))
        dirs.append(os.path.join(top, x))
    deep = dirs[depth - 1]
    for i in range(n):
        where[i] = deep if i == n - 1 else dirs[i] if i < len(dirs) else r.choice([wide, wide, wide, r.choice(dirs)])
        with open(os.path.join(where[i], r.choice(["", "", "x.y", "it's", "\\", "a b"]) + f"{i}" + r.choice([".cfg", ".conf"])), "w") as f:
            f.write(f'authorize "id{i}" {{\n password = "key {i}"\n commands = "OWN{i}"\n}}\n' + ("\n# end" if i % 3 == 0 else ""))
        if i % 50 == 0:
            with open(os.path.join(where[i], f"{i}.txt"), "w") as f:
                f.write("not { a configuration file")
    c = os.path.join(d, "c.cfg")
    with open(c, "w") as f:
        f.write(f"temp_directory = {q(d)}\ninclude({q(top)})\n")
    port = free_port()
    fifo = Fifo(os.path.join(d, "cmd"))
    srv = launch(ctx, d, ["-F", "-c", c, "-C", fifo.path, "-b", f"127.0.0.1:{port}"], text=False)
    srv.fifo, srv.port = fifo, port
    try:
        if not wait_for(lambda: srv.p.poll() is not None or listening(port), 60) or srv.p.poll() is not None:
            if b"in use" in srv.stderr():
                raise Inconclusive("port taken")
            raise Violation("a valid configuration was refused", f"{n} files, {depth} directories deep: {srv.stderr()[-500:]!r}")
        for i in sorted({0, 1, depth - 1, *range(depth, len(dirs) + 1), n - 2, n - 1, *r.sample(range(n), min(n, ctx.n(40, 200)))}):
            try:
                s = sess(port, b"id%d" % i, b"key %d" % i, 20, version=r.choice(["1.2", "1.3"]))
            except (Closed, TLSError) as x:
                raise Violation("the configured password is not accepted", f"file {i} of {n} in {where[i]}: {x}")
            if s.push(b"[1500000000] OWN%d\n" % i) != b"OKAY\r\n":
                raise Violation("a section does not have the configured permissions", f"file {i} of {n}")
            s.quit()
            ctx.case(("file", n, i))
        ctx.count("files of large configurations", n)
    finally:
        srv.p.kill()
        srv.p.wait()
        fifo.shutdown()


def relative(ctx, how):
    """Names relative to the directory the server was started in."""
    d = ctx.dir("rel")
    os.mkdir(os.path.join(d, "sub"))
    fifo = Fifo(os.path.join(d, "sub", "cmd"))
    other = Fifo(os.path.join(d, "cmd"))
    port = free_port()
    conf = {"options": 'command_file = "cmd"\npid_file = "wrong"\n', "settings": 'command_file = "sub/cmd"\npid_file = "sub/pid"\n'}[how]
    with open(os.path.join(d, "sub", "c.cfg"), "w") as f:
        f.write(conf + 'temp_directory = "sub"\ninclude("sub/more")\n')
    os.mkdir(os.path.join(d, "sub", "more"))
    with open(os.path.join(d, "sub", "more", "x.conf"), "w") as f:
        f.write(GOOD)
    argv = ["-F", "-c", "sub/c.cfg", "-b", f"127.0.0.1:{port}"] + (["-C", "sub/cmd", "-P", "sub/pid"] if how == "options" else [])
    srv = launch(ctx, d, argv, text=False, preexec=lambda: os.chdir(d))
    srv.fifo, srv.port = fifo, port
    try:
        if not wait_for(lambda: srv.p.poll() is not None or listening(port), 20) or srv.p.poll() is not None:
            if b"in use" in srv.stderr():
                raise Inconclusive("port taken")
            raise Violation("a valid configuration was refused", f"relative {how}: {srv.stderr()[-500:]!r}")
        wait_for(lambda: os.path.exists(os.path.join(d, "sub", "pid")), 5)
        if not os.path.exists(os.path.join(d, "sub", "pid")):
            raise Violation("a value from the configuration is not in effect", f"relative {how}: no PID file")
        s = sess(port, b"id", b"pw")
        for n in (10, 9000):
            s.push(b"[1500000000] " + b"x" * n + b"\n")
        ok = wait_for(lambda: b"xxx\n" in fifo.snapshot() and b"PROCESS_FILE;sub/nsca." in fifo.snapshot(), 10)
        s.quit()
        if not ok or other.snapshot():
            raise Violation("a value from the configuration is not in effect", f"relative {how}: {fifo.snapshot()[:200]!r}, {other.snapshot()[:200]!r}")
        ctx.case(("relative", how))
    finally:
        srv.p.kill()
        srv.p.wait()
        fifo.shutdown()
        other.shutdown()


def run(ctx):
    ctx.attempt(defaults, ctx)
    ctx.pmap(lambda h: relative(ctx, h), ("options", "settings"), 2)
    ctx.attempt(default_port, ctx)
    jobs = [(default_command_file, ()), (continuation, ()), (override, ())]
    for n, a in ((60, False), (1500, True)) if not ctx.thorough else ((60, False), (400, False), (1500, True), (4000, False), (9000, True)):
        jobs.append((many, (n, a)))
    for n, depth in ((3000, 40),) if not ctx.thorough else ((300, 5), (3000, 40), (9000, 120)):
        jobs.append((tree, (n, depth)))
    for n, s in invalid_cases(random.Random(1)).items():
        jobs.append((invalid, (n, s)))
    for h in ("readonly", "nosearch", "root's", "fine", "file"):
        jobs.append((unusable_temp, (h,)))
    for k in range(ctx.n(100, 1500)):
        jobs.append((model, (f"{ctx.seed}/{k}",)))
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(60, 900) > 0 else None, jobs, 16)
