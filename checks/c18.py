"""C18: secrets never appear in anything the programs emit.  Oracle: taint tracking by unique random
passwords; everything observable from outside (logs, errors, responses, network bytes in both
directions, process titles, created files, pipe data) is searched for any eight consecutive bytes
of any of them, also reversed, in hexadecimal and in base64."""
import base64, random, threading
from nlib import *
from c16 import launch
import cl, c17

TECHNIQUE = "runtime monitoring: taint-style observation of every output channel with unique random secrets"
NOTE = ("Every run uses fresh random passwords; logs at all levels and targets (standard error, syslog, systemd), error messages for some 60 wrong configurations, "
        "responses, recorded network traffic (both directions, also with plaintext and scripted peers), /proc/PID/{cmdline,environ,comm}, the PID file, spool files, "
        "and pipe data of the server, send_nsca and both language bindings are searched for eight-byte pieces of them in five encodings.")
RULE = ("one case = one process or session with particular outcome, log level and log target, all of whose outputs were searched; distinct = distinct (program, "
        "scenario, level, target); non-trivial = the secret was loaded by the program or stands in a configuration it read")
ASSUMPTIONS = ["a value with an unquoted blank is not a password: the words following it are tokens of the configuration grammar"]
AL = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"


def secret(r, n=None, special=False):
    n = n or r.choice([9, 16, 24, 40, 100, 200])
    s = "".join(r.choice(AL) for _ in range(n))
    if special:
        k = r.randrange(1, n)
        s = s[:k] + r.choice(["%s%s", "%n", "%m", " ", ";", "'", "[1]", "é"]) + s[k:]
    return s


class Needles:
    def __init__(self, *pws):
        self.raw, self.hex, self.b64 = set(), set(), set()
        for p in pws:
            b = p.encode("latin-1") if isinstance(p, str) else p
            for x in (b, b[::-1]):
                for i in range(max(1, len(x) - 7)):
                    self.raw.add(x[i:i + 8].lower())
                    self.hex.add(x[i:i + 8].hex().encode())
                for k in range(3):
                    e = base64.b64encode(b"\0" * k + x)[4:].rstrip(b"=")[:-2]
                    self.b64 |= {e[i:i + 10] for i in range(0, max(1, len(e) - 9), 2) if len(e[i:i + 10]) == 10}

    def search(self, data):
        if not data:
            return None
        low = data.lower()
        for x in self.raw:
            if x in low:
                return x
        for x in self.b64:
            if x in data:
                return x
        low = re.sub(rb"[\s:,]|\\x|0x", b"", low)
        for x in self.hex:
            if x in low:
                return x
        return None

    def check(self, data, where, what=""):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        m = self.search(data)
        if m:
            i = max(0, data.lower().find(m) - 100)
            raise Violation(f"a secret appears in {where}", f"{what}: {data[i:i + 400]!r}")


class Tap:
    """A relay in front of a port that records all bytes."""

    def __init__(self, port):
        self.target, self.data, self.stop = port, bytearray(), False
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(50)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.relay, args=(c,), daemon=True).start()

    def relay(self, c):
        try:
            u = socket.create_connection(("127.0.0.1", self.target), 10)
        except OSError:
            c.close()
            return
        # One buffer per direction, so that nothing gets torn.
        bufs = {c: bytearray(), u: bytearray()}
        open_ = {c, u}
        try:
            while open_:
                r, _, _ = select.select(list(open_), [], [], 60)
                if not r:
                    break
                for x in r:
                    y = u if x is c else c
                    try:
                        b = x.recv(65536)
                        if b:
                            bufs[x] += b
                            y.sendall(b)
                            continue
                        y.shutdown(socket.SHUT_WR)
                        open_.discard(x)
                    except OSError:
                        # One side is gone altogether.
                        open_.clear()
                        break
        finally:
            for b in bufs.values():
                self.data += b + b"\n--\n"
            c.close()
            u.close()

    def close(self):
        self.s.close()


def proc(pid):
    out = b""
    for f in ("cmdline", "environ", "comm", "status"):
        try:
            with open(f"/proc/{pid}/{f}", "rb") as fh:
                out += fh.read() + b"\n"
        except OSError:
            pass
    return out


def files(d, skip):
    out = []
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if p in skip or not os.path.isfile(p):
                continue
            try:
                with open(p, "rb") as fh:
                    out.append((p, fh.read()))
            except OSError:
                pass
            out.append((p, f.encode()))
    return out


OUTCOMES = ["ok", "big", "refused", "wrongkey", "unknown", "badreq", "nomoin", "bail", "junk", "plain", "drop", "abort", "toolong", "oversized", "idle", "resume",
            "guess", "keyasid", "ping", "nul", "passdata"]


def outcome(ctx, r, port, ident, pw, kind, say):
    """One client session with a particular course.  say(bytes) receives what the server said."""
    tls13 = r.random() < 0.5
    ver = "1.3" if tls13 else "1.2"
    i, k = ident.encode("latin-1"), pw.encode("latin-1")
    if kind in ("junk", "plain", "idle"):
        s = socket.create_connection(("127.0.0.1", port), 10)
        s.settimeout(10)
        if kind != "idle":
            s.sendall(r.randbytes(300) if kind == "junk" else b"MOIN 1 abcdefgh\r\nPUSH 3\r\nGET / HTTP/1.0\r\n\r\n")
        else:
            s.sendall(b"\x16\x03\x01")
        try:
            while True:
                b = s.recv(65536)
                if not b:
                    break
                say(b)
        except OSError:
            pass
        s.close()
        return
    if kind in ("wrongkey", "unknown", "keyasid", "guess"):
        try:
            if kind == "wrongkey":
                x = sess(port, i, b"nearly" + k[6:9])
            elif kind == "guess":
                x = sess(port, i, b"")
            elif kind == "unknown":
                x = sess(port, i + b"x", k)
            else:
                x = sess(port, b"nobody@all", b"nobody@all")
            for l in x.log:
                say(l[1])
            x.close()
            raise Inconclusive("let in")
        except (Closed, TLSError, ConnectionError):
            pass
        return
    x = sess(port, i, k, moin=kind not in ("nomoin", "ping"))
    try:
        if kind == "ok":
            x.push(b"[1500000001] OK;1\n")
            x.push(b"[1500000001] OK;2\n")
            x.quit()
        elif kind == "big":
            x.push(b"[1500000001] OK;" + b"v" * 9000 + b"\n")
            x.quit()
        elif kind == "refused":
            x.push(b"[1500000001] NOT;1\n")
            x.push(b"OK no stamp\n")
            x.push(b"[1] OK;a\n[1] OK;b\n")
        elif kind == "passdata":
            # What the client itself says about other things is not at issue.
            x.push(b"[1500000001] OK;" + i + b"\n")
        elif kind == "nul":
            x.push(b"[1] OK;\0x\n")
        elif kind == "badreq":
            for l in (b"PUSH", b"PUSH x", b"PUSH -1", b"PUSH 0", b"HELLO", b"", b"PUSH 1 2", b"%s%n%m", b"STARTTLS", b"AUTH"):
                x.cmd(l)
        elif kind == "nomoin":
            for l in (b"MOIN", b"MOIN x y", b"NOOP", b"MOIN 1", b"PUSH 12"):
                x.cmd(l)
        elif kind == "ping":
            x.cmd(b"PING 1")
        elif kind == "bail":
            x.e.send(b"BAIL bye\r\n")
        elif kind == "drop":
            x.e.send(b"PUSH 100\r\nabc")
        elif kind == "abort":
            x.cmd(b"PUSH 100")
            s = x.e.sock if hasattr(x.e, "sock") else x.e.s
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "toolong":
            x.e.send(b"X" * 5000)
            say(x.e.read_to_end(10))
        elif kind == "oversized":
            x.cmd(b"PUSH 999999")
        elif kind == "resume":
            x.cmd(b"NOOP")
            g = getattr(x.e, "get_session", None)
            t = g() if g else None
            x.quit()
            if t:
                try:
                    y = sess(port, i, k, resume=t)
                    y.quit()
                except (Closed, TLSError, TypeError, ConnectionError):
                    pass
    except (Closed, ConnectionError):
        pass
    finally:
        for l in x.log:
            if l[0] == "S":
                say(l[1])
        x.close()


def server_auth(r, special=False):
    pws = {i: secret(r, special=special and r.random() < .5) for i in ("alpha", "beta-host", "gamma %s", "*")}
    t = ""
    for i, p in pws.items():
        t += (f"authorize {q(i)} {{\n password = {q(p)}\n commands = {{ \"OK.*\" }}\n hosts = {{ \"h.*\" }}\n}}\n")
    return pws, t


def serve(ctx, k):
    """A server with clients of every kind, at one log level and target."""
    r = random.Random(f"{ctx.seed}/srv{k}")
    pws, auth = server_auth(r, True)
    # Beyond what the TLS library's key buffer holds.
    pws["long"] = secret(r, r.choice([255, 257, 300, 511, 513, 600, 1500]))
    auth += f"authorize \"long\" {{\n password = {q(pws['long'])}\n commands = \".*\"\n}}\n"
    level = [5, 4, 5, 3, 2, 5, 1, 0][k % 8]
    target = ["stderr", "-S", "stderr", "-s", "daemon", "systemd"][k % 6]
    nd = Needles(*pws.values())
    sysl = None
    env = {"NSCAMON_TEXT": "1"} if target != "daemon" else {}
    variant = "asan" if target in ("stderr",) else "plain"
    d = ctx.dir("srv")
    if target in ("-S", "-s", "daemon"):
        sysl = os.path.join(d, "syslog")
        env.update(LD_PRELOAD=build.shim(), NSCA_SYSLOG=sysl)
    pid_file = os.path.join(d, "pid")
    opts = "timeout = 1.5\nmax_command_size = 20000\nmax_queue_size = 1\npid_file = " + q(pid_file)
    inherit = None
    srv = Server(ctx, dir=d, auth=auth, opts=opts, loglevel=level, variant=variant, start=False, env=env,
                 args=[target] if target.startswith("-") else [])
    if target == "systemd":
        inherit = socket.socket()
        inherit.bind(("127.0.0.1", 0))
        inherit.listen(20)
        cfile = os.path.join(d, "nsca-ng.cfg")
        with open(cfile, "w", encoding="latin-1") as f:
            f.write(srv.conf_text())
        srv.cfile, srv.port = cfile, inherit.getsockname()[1]

        def pre():
            os.dup2(inherit.fileno(), 3)
            os.set_inheritable(3, True)
            os.environ["LISTEN_PID"] = str(os.getpid())
        e = srv.environ()
        e["LISTEN_FDS"] = "1"
        sh = ["sh", "-c", 'LISTEN_PID=$$ exec "$@"', "sh", build.server("plain"), "-c", cfile]
        with open(srv.err, "wb") as ef:
            srv.p = ctx.spawn(sh, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, cwd=d, preexec_fn=pre, close_fds=False)
        if not wait_for(lambda: os.path.exists(pid_file) and open(pid_file).read().strip() == str(srv.p.pid), 15):
            raise Inconclusive("no server on an inherited socket: " + srv.stderr().decode("latin-1")[-300:])
        pid = srv.p.pid
    elif target == "daemon":
        with open(os.path.join(d, "x.cfg"), "w", encoding="latin-1") as f:
            f.write(srv.conf_text())
        srv.cfile = os.path.join(d, "x.cfg")
        srv.port = free_port()
        with open(srv.err, "wb") as ef:
            rc = subprocess.run([build.server("plain"), "-c", srv.cfile, "-b", f"127.0.0.1:{srv.port}"], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                                env=srv.environ(), cwd=d).returncode
        if rc != 0:
            raise Inconclusive("no daemon")
        pid = wait_for(lambda: int(c17.read(pid_file) or 0), 10)
        c17.DAEMONS.append(pid)
    else:
        srv.start()
        pid = srv.p.pid
    tap = Tap(srv.port)
    try:
        said = bytearray()
        lock = threading.Lock()

        def say(b):
            with lock:
                said.extend(b or b"")
                said.extend(b"\n")
        nd.check(proc(pid), "the process's arguments, name or environment", target)
        cases = r.sample(OUTCOMES, ctx.n(9, 21))
        for c in cases:
            i = r.choice(["alpha", "beta-host", "gamma %s"])
            try:
                outcome(ctx, r, tap.port, i, pws[i], c, say)
            except Inconclusive:
                raise
            ctx.case(("server", c, level, target))
            ctx.count("sessions")
        for n in (None, 256, 512, 255, 511)[:ctx.n(3, 5)]:
            try:
                x = sess(tap.port, b"long", pws["long"].encode()[:n])
                x.push(b"[1500000001] OK;1\n")
                for l in x.log:
                    say(l[1])
                x.quit()
            except (Closed, TLSError, OSError, ValueError):
                pass
            ctx.case(("server", "long password", level, target, n))
            ctx.count("sessions")
        # Data nobody reads: it is kept, written into spool files.
        srv.fifo.pause()
        x = sess(tap.port, b"alpha", pws["alpha"].encode("latin-1"))
        for n in range(12):
            x.push(b"[1500000001] OK;" + b"q" * 15000 + b"\n")
        x.quit()
        time.sleep(0.1)
        skip = {srv.cfile}
        for p, b in files(d, skip):
            nd.check(b, f"the file {os.path.basename(p)}", target)
            ctx.count("files searched")
        if target not in ("daemon", "systemd"):
            # Reload under the same configuration.
            os.kill(pid, signal.SIGHUP)
            time.sleep(0.2)
            end = time.monotonic() + 10
            while time.monotonic() < end:
                try:
                    sess(srv.port, b"alpha", pws["alpha"].encode("latin-1")).quit()
                    break
                except (Closed, TLSError, OSError):
                    time.sleep(0.05)
            nd.check(proc(pid), "the process's arguments, name or environment", "after SIGHUP")
        srv.fifo.resume()
        os.kill(pid, signal.SIGTERM)
        wait_for(lambda: not c17.alive(pid), 15)
        nd.check(bytes(said), "a response", target)
        nd.check(bytes(tap.data), "the network traffic", target)
        nd.check(srv.fifo.snapshot(), "the command pipe", target)
        log = srv.stderr() + (c17.read(sysl) if sysl else b"")
        for p, b in files(d, skip):
            nd.check(b, "a log message" if os.path.basename(p) in ("stderr", "syslog") else f"the file {os.path.basename(p)}", target)
        for m in re.finditer(rb"NSCAMON create .* arg=(.*)", log):
            p = m.group(1).decode("latin-1")
            if p not in skip and os.path.isfile(p) and not p.startswith("/proc"):
                nd.check(c17.read(p), "a created file", p)
        if level >= 3 and b"Queuing" not in log and "ok" in cases:
            raise Inconclusive("no log was seen")
        ctx.count("log bytes searched", len(log))
        ctx.count("network bytes searched", len(tap.data))
    finally:
        tap.close()
        try:
            if pid and c17.alive(pid):
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        if srv.p is not None:
            srv.p.wait(10)
        srv.fifo.shutdown()
        if inherit:
            inherit.close()


BASE = 'command_file = "/nonexistent/c"\ntemp_directory = "/tmp"\n'
OK_AUTH = 'authorize "ok" {\n password = "@A@"\n}\n'
# @P@ and @A@ are proper passwords; something else is wrong.
SERVER_BAD = {
    "unknown option": 'authorize "a" {\n password = "@P@"\n secret = "x"\n}\n',
    "misspelt": 'authorize "a" {\n passwort = "@P@"\n}\n',
    "misspelt twice": 'authorize "a" {\n passwort = "x"\n password = "@P@"\n}\n',
    "no equal sign": 'authorize "a" {\n password "@P@"\n}\n',
    "no equal sign after": 'authorize "a" {\n password = "@P@"\n hosts\n}\n',
    "list": 'authorize "a" {\n password = { "@P@", "@A@" }\n}\n',
    "twice": 'authorize "a" {\n password = "@P@"\n password = "@A@"\n bogus\n}\n',
    "duplicate": 'authorize "a" {\n password = "@P@"\n}\nauthorize "a" {\n password = "@A@"\n}\n',
    "one without": 'authorize "a" {\n password = "@P@"\n}\nauthorize "b" {\n hosts = ".*"\n}\n',
    "bad regex": 'authorize "a" {\n password = "@P@"\n commands = "(("\n}\n',
    "bad regex first": 'authorize "a" {\n commands = "(("\n password = "@P@"\n}\n',
    "bad regexes": 'authorize "a" {\n hosts = "a", "[", \n password = "@P@"\n}\n',
    "outside": 'password = "@P@"\n' + OK_AUTH,
    "global": OK_AUTH + 'password = "@P@"\n',
    "unclosed": 'authorize "a" {\n password = "@P@"\n',
    "unclosed string": 'authorize "a" {\n password = "@P@\n}\n',
    "unclosed single": "authorize \"a\" {\n password = '@P@\n}\n",
    "no title": 'authorize {\n password = "@P@"\n}\n',
    "two titles": 'authorize "a" "b" {\n password = "@P@"\n}\n',
    "nested": 'authorize "a" {\n password = "@P@"\n authorize "b" {\n password = "@A@"\n }\n}\n',
    "negative": OK_AUTH + "timeout = -1\n",
    "non-number": OK_AUTH + "max_queue_size = many\n",
    "non-number level": OK_AUTH + 'log_level = "x"\n',
    "bad include": OK_AUTH + 'include("/nonexistent/x")\n',
    "include without": OK_AUTH + "include()\n",
    "include special": OK_AUTH + 'include("/dev/null")\n',
    "bad temp": OK_AUTH + 'temp_directory = "/nonexistent/tmp"\n',
    "bad listen": OK_AUTH + 'listen = "nohost.invalid:99999"\n',
    "bad cipher": OK_AUTH + 'tls_ciphers = "BOGUS"\n',
    "bad user": OK_AUTH + 'user = "no-such-user"\n',
    "bad chroot": OK_AUTH + 'chroot = "/nonexistent/root"\n',
    "bad pid": OK_AUTH + 'pid_file = "/nonexistent/pid"\n',
    "plus": 'authorize "a" {\n password += "@P@"\n}\n',
    "brace": 'authorize "a" {\n password = "@P@" }}\n',
    "list elsewhere": 'authorize "a" {\n password = "@P@"\n hosts = { "a" \n}\n',
    "env": 'authorize "a" {\n password = ${SECRET}\n bogus = 1\n}\n',
    "env only": 'authorize "a" {\n password = ${NSCA_UNSET:-@P@}\n bogus = 1\n}\n',
    "function": 'authorize "a" {\n password = "@P@"\n include("/x")\n}\n',
    "NUL": 'authorize "a" {\n password = "@P@\\x00"\n bogus\n}\n',
    "escape": 'authorize "a" {\n password = "\\q@P@"\n bogus\n}\n',
    "single": "authorize \"a\" {\n password = '@P@'\n bogus\n}\n",
    "bare": 'authorize "a" {\n password = @P@\n bogus\n}\n',
    "bare brace": 'authorize "a" { password = @P@\n bogus = 2 }\n',
    "joined": 'authorize "a" {\n password = "@P@" + "x"\n}\n',
    "colon": 'authorize "a" {\n password: "@P@"\n}\n',
    "case": 'authorize "a" {\n Password = "@P@"\n}\n',
    "two per line": 'authorize "a" {\n password = "@P@" "x"\n}\n',
    "comma": 'authorize "a" {\n password = "@P@", "x"\n}\n',
}
# libConfuse itself quotes the token it does not expect: the text there is not the value of a setting.
ECHOES = {"two per line": "x"}


def bad_server(ctx, name):
    r = random.Random(f"{ctx.seed}/bad{name}")
    a, p = secret(r, 40), secret(r, 40)
    if name in ("long",):
        p = secret(r, 3000)
    d = ctx.dir("bad")
    c = os.path.join(d, "c.cfg")
    with open(c, "w") as f:
        f.write(BASE + SERVER_BAD[name].replace("@P@", p).replace("@A@", a))
    nd = Needles(a, p)
    opts = r.choice([[], ["-l", "5"], ["-F"], ["-F", "-l", "5"], ["-F", "-S", "-l", "5"]])
    e = {"SECRET": p} if name == "env" else {}
    e.update(LD_PRELOAD=build.shim(), NSCA_SYSLOG=os.path.join(d, "syslog"))
    # An unprivileged network-facing start is not wanted here: the port is one that is free.
    srv = launch(ctx, d, [*opts, "-c", c] + ([] if name == "bad listen" else ["-b", f"127.0.0.1:{free_port()}"]), env=e)
    try:
        try:
            srv.p.wait(2)
            ctx.count("configurations refused", srv.p.returncode != 0)
        except subprocess.TimeoutExpired:
            nd.check(proc(srv.p.pid) if name != "env" else b"", "the process's arguments, name or environment")
            ctx.count("configurations accepted")
            srv.p.terminate()
            srv.p.wait(10)
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
            srv.p.wait()
    for f, b in files(d, {c}):
        nd.check(b, "an error message" if f.endswith(("stderr", "syslog")) else f"the file {os.path.basename(f)}", f"{name} {opts}")
    ctx.case(("bad server configuration", name, tuple(opts)))


CLIENT_BAD = {
    "unknown": 'password = "@P@"\nbogus = 1\n',
    "unknown first": 'bogus = 1\npassword = "@P@"\n',
    "misspelt": 'passwort = "@P@"\n',
    "no equal": 'password "@P@"\n',
    "no equal 2": 'password @P@\n',
    "colon": 'password: @P@\n',
    "excess": 'password = "@P@" x\n',
    "excess secret": 'password = x@P@ @A@\n',
    "excess quoted": 'password = "@A@" "@P@"\n',
    "unterminated": 'password = "@P@\n',
    "unterminated single": "password = '@P@\n",
    "unterminated escape": 'password = "@P@\\"\n',
    "too long": 'password = "@P@@L@"\n',
    "too long bare": 'password = @P@@L@\n',
    "continued": 'password = \\\n"@P@"\nbogus = 1\n',
    "continued 2": 'pass\\\nword = "@P@" y\n',
    "non-number": 'password = "@P@"\ntimeout = x\n',
    "non-number secret": 'port = 1\ndelay = 1\npassword = "@P@"\ntimeout = 99999999999999\n',
    "no value": 'password = "@P@"\nserver =\n',
    "bad cipher": 'password = "@P@"\ntls_ciphers = "BOGUS"\n',
    "bad host": 'password = "@P@"\nserver = nohost.invalid\n',
    "twice": 'password = "@P@"\npassword = "@A@"\nserver = nohost.invalid\n',
    "empty line": 'password = "@P@"\n= 3\n',
    "compat": 'password = "@P@"\nencryption_method = 1\nbogus\n',
    "good": 'password = "@P@"\n',
}


def bad_client(ctx, name):
    r = random.Random(f"{ctx.seed}/cb{name}")
    for args in ([], ["-v", "-v", "-v"], ["-v", "-v", "-v", "-v"], ["-s", "-S", "-v", "-v", "-v"])[:ctx.n(2, 4)] + (r.choice([["-s", "-S", "-v", "-v", "-v"], ["-v"]]),):
        p, a = secret(r, 40), secret(r, 40)
        text = CLIENT_BAD[name].replace("@P@", p).replace("@A@", a).replace("@L@", secret(r, 3000))
        sysl = os.path.join(ctx.tmp, f"sl{r.random()}")
        res = cl.send_nsca(ctx, args, [b"h\ts\t0\tx\n"], ("port = 9\ntimeout = 3\n" + text).encode("latin-1"), variant="plain", limit=40,
                           env={"LD_PRELOAD": build.shim(), "NSCA_SYSLOG": sysl})
        nd = Needles(p, a)
        nd.check(res.out + b"\n" + res.err, "an error message of send_nsca", f"{name} {args}")
        nd.check(c17.read(sysl), "a syslog message of send_nsca", f"{name} {args}")
        ctx.case(("bad client configuration", name, tuple(args)))
        ctx.count("client configurations")


RESP = {
    "ok": None, "fail announcement": lambda k, a: b"FAIL no\r\n" if k == "PUSH" else None, "fail": lambda k, a: b"FAIL %s%n\r\n" if k == "DATA" else None,
    "bail": lambda k, a: b"BAIL out\r\n" if k == "PUSH" else None, "moin": lambda k, a: b"MOIN 2\r\n" if k == "MOIN" else None,
    "ask": lambda k, a: b"PASSWORD?\r\n" if k == "MOIN" else None, "unknown": lambda k, a: b"HUH\r\n" if k == "DATA" else None,
    "long": lambda k, a: b"x" * 5000 if k == "MOIN" else None, "quit": lambda k, a: b"FAIL\r\n" if k == "QUIT" else None,
}


def client(ctx, k):
    """send_nsca against peers of every kind: nothing it says, writes or sends holds its password."""
    r = random.Random(f"{ctx.seed}/cl{k}")
    p = secret(r, special=r.random() < .3)
    if k % 7 == 3:
        p = secret(r, r.choice([255, 257, 300, 511, 513, 600, 1500]))
    pk = p.encode("latin-1")
    nd = Needles(p)
    ident = b"cl%d" % k
    kind = [*RESP, "plain junk", "plain moin", "http", "silent", "wrongkey", "close", "refuse"][k % (len(RESP) + 7)]
    got = bytearray()
    fs = None
    if kind in RESP:
        def h(ep, rec):
            try:
                polite(ep, rec, RESP[kind])
            finally:
                for e in rec["events"]:
                    got.extend(e[1] if isinstance(e[1], bytes) else b"")
        fs = FakeServer(h, keys=lambda i: pk)
    elif kind == "wrongkey":
        fs = FakeServer(lambda ep, rec: polite(ep, rec), keys=lambda i: b"another key 123")
    elif kind == "refuse":
        pass
    else:
        def raw(c, rec):
            c.settimeout(4)
            if kind == "close":
                return
            try:
                if kind == "plain moin":
                    c.sendall(b"MOIN 1\r\nOKAY\r\n")
                elif kind == "http":
                    c.sendall(b"HTTP/1.1 401 Unauthorized\r\nWWW-Authenticate: Basic\r\n\r\n")
                elif kind == "plain junk":
                    c.sendall(r.randbytes(2000))
                while True:
                    b = c.recv(65536)
                    if not b:
                        return
            except OSError:
                pass
        fs = FakeServer(raw, raw=True)
    tap = Tap(fs.port if fs else free_port())
    sysl = os.path.join(ctx.tmp, f"slc{k}")
    args = r.choice([[], ["-v"], ["-v"] * 2, ["-v"] * 3, ["-v"] * 3, ["-v"] * 4, ["-s", *["-v"] * 3], ["-S", "-s", *["-v"] * 3]])
    seen = []

    def look():
        time.sleep(0.05)
        for pr in list(ctx.procs):
            if pr.poll() is None and p.encode("latin-1"):
                seen.append(proc(pr.pid))
    t = threading.Thread(target=look)
    t.start()
    try:
        conf = cl.conf(ident, tap.port, timeout=1).replace(b'password = "pw"', b'password = "' + pk.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"')
        res = cl.send_nsca(ctx, args, [b"h\ts\t0\tx\n", 0.1, b"\x17h\t0\tfine\n"], conf, variant="plain",
                           limit=40, env={"LD_PRELOAD": build.shim(), "NSCA_SYSLOG": sysl})
    finally:
        t.join()
        if fs:
            fs.close()
        tap.close()
    time.sleep(0.02)
    nd.check(res.out + b"\n" + res.err, "a message of send_nsca", f"{kind} {args}")
    nd.check(c17.read(sysl), "a syslog message of send_nsca", f"{kind} {args}")
    nd.check(bytes(tap.data), "the network traffic of send_nsca", kind)
    nd.check(bytes(got), "a request of send_nsca", kind)
    for s in seen:
        nd.check(s, "the process's arguments, name or environment", kind)
    ctx.case(("send_nsca", kind, tuple(args)))
    ctx.count("network bytes searched", len(tap.data))
    ctx.count("client runs")


PY = r"""
import sys, traceback, json
sys.path.insert(0, sys.argv[1])
import nscang
port, ident, pw, n = int(sys.argv[2]), "id", sys.stdin.readline().rstrip("\n"), 0
def go(f, *a, **k):
    global n
    try:
        print(repr(f(*a, **k)))
    except BaseException as e:
        print(type(e).__name__, str(e), repr(e), e.args)
        print("".join(traceback.format_exception_only(type(e), e)))
names = [x for x in dir(nscang) if not x.startswith("_")]
cls = nscang.NSCAngNotifyer
o = None
def mk(*a, **k):
    return cls(*a, **k)
try:
    o = mk("127.0.0.1", port, ident, pw)
except BaseException as e:
    print(repr(e))
for args in [(), ("x",), ("127.0.0.1", "x", ident, pw), ("127.0.0.1", port, ident, pw, "BOGUS"), ("127.0.0.1", port, 1, pw), ("127.0.0.1", port, ident, pw, 3), ("h\0", port, ident, pw),
             ("127.0.0.1", port, ident, pw + "\0"), ("127.0.0.1", port, ident, pw, None, None, None, None)]:
    go(mk, *args)
go(mk, "127.0.0.1", port, ident, pw, bogus=1)
if o is not None:
    print(repr(o), str(o), dir(o), getattr(o, "__dict__", None))
    for i in range(2):
        go(o.svc_result, "h", "s", 0, "fine")
        go(o.host_result, "h", 0, "fine")
        go(o.svc_result, "h")
        go(o.svc_result, "h", "s", "x", 3)
"""

PL = r"""
use strict; use warnings;
use Net::NSCAng::Client ':all';
$| = 1; open STDERR, '>&', \*STDOUT;
my ($port, $pw) = ($ARGV[0], scalar <STDIN>); chomp $pw;
sub go { my $f = shift; my @r = eval { $f->() }; print "r: @{[map { defined $_ ? $_ : 'undef' } @r]}\n"; print "e: $@\n" if $@; }
my $c;
go(sub { $c = Net::NSCAng::Client->new('127.0.0.1', 'id', $pw, port => $port, node_name => 'n', svc_description => 's', timeout => 1); 1 });
go(sub { Net::NSCAng::Client->new('127.0.0.1', 'id', $pw, port => $port, ciphers => 'BOGUS') });
go(sub { Net::NSCAng::Client->new('127.0.0.1', 'id', $pw, 'odd') });
go(sub { Net::NSCAng::Client->new('127.0.0.1', 'id', $pw, port => 'x', timeout => 'y') });
go(sub { Net::NSCAng::Client->new('127.0.0.1', 'id') });
go(sub { Net::NSCAng::Client->new('127.0.0.1', 'id', $pw, port => 70000) });
for (1 .. 2) {
    go(sub { $c->svc_result(OK, 'fine') });
    go(sub { $c->host_result(OK, 'fine') });
    go(sub { $c->command('X;%s%n') });
    go(sub { $c->command(undef) });
    go(sub { $c->svc_result(OK, 'fine', { svc_description => 'x' }) });
}
my $d = Net::NSCAng::Client->new('127.0.0.1', 'id', $pw, port => $port, timeout => 1);
go(sub { $d->svc_result(OK, 'x') });
go(sub { $d->host_result(OK, 'x') });
"""


def binding(ctx, k):
    lang = ["python", "perl"][k % 2]
    r = random.Random(f"{ctx.seed}/bi{k}")
    p = secret(r, r.choice([12, 30, 90]) if k % 6 < 4 else r.choice([257, 300, 513, 600, 1500]))
    nd = Needles(p)
    kind = ["ok", "fail", "wrongkey", "bail", "unknown", "plain moin", "moin", "ask", "http", "long"][(k // 2) % 10]
    got = bytearray()
    if kind in RESP:
        def h(ep, rec):
            try:
                polite(ep, rec, RESP[kind])
            finally:
                for e in rec["events"]:
                    got.extend(e[1] if isinstance(e[1], bytes) else b"")
        fs = FakeServer(h, keys=lambda i: p.encode())
    elif kind == "wrongkey":
        fs = FakeServer(lambda ep, rec: polite(ep, rec), keys=lambda i: b"another key 123")
    else:
        def raw(c, rec):
            c.settimeout(3)
            try:
                c.sendall(b"MOIN 1\r\nOKAY\r\n" if kind == "plain moin" else b"HTTP/1.1 401 Unauthorized\r\n\r\n")
                while c.recv(65536):
                    pass
            except OSError:
                pass
        fs = FakeServer(raw, raw=True)
    tap = Tap(fs.port)
    try:
        if lang == "python":
            argv = [sys.executable, "-c", PY, build.python_ext("plain"), str(tap.port)]
        else:
            argv = ["perl", "-I", build.perl_ext("plain"), "-e", PL, str(tap.port)]
        pr = subprocess.run(argv, input=p.encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100, cwd=ctx.tmp)
    except build.BuildError as e:
        raise Inconclusive(f"the {lang} module cannot be built: {str(e)[:200]}")
    except subprocess.TimeoutExpired:
        raise Inconclusive("the script did not end")
    finally:
        fs.close()
        tap.close()
    nd.check(pr.stdout, f"a message of the {lang} module", kind)
    nd.check(bytes(tap.data), f"the network traffic of the {lang} module", kind)
    nd.check(bytes(got), f"a request of the {lang} module", kind)
    ctx.case((lang, kind))
    ctx.count("binding runs")
    ctx.count("network bytes searched", len(tap.data))


def run(ctx):
    c17.adopt()
    build.server("plain"), build.server("asan"), build.client("plain"), build.shim()
    # The search works: every encoding of a secret is found.
    p = secret(ctx.rng, 24)
    b = p.encode()
    for t in (b, b.upper(), b[::-1], b[5:13], b.hex().encode(), base64.b64encode(b), base64.b64encode(b"ab" + b), b" ".join(b"%02x" % x for x in b)):
        if not Needles(p).search(b"[1] " + t + b" end"):
            raise Inconclusive(f"the search misses {t!r}")
    if Needles(p).search(b"some ordinary text" * 10):
        raise Inconclusive("the search finds too much")
    jobs = [("serve", k) for k in range(ctx.n(12, 96))]
    jobs += [("client", k) for k in range(ctx.n(20, 200))]
    jobs += [("bad_server", k) for k in SERVER_BAD]
    jobs += [("bad_client", k) for k in CLIENT_BAD]
    jobs += [("binding", k) for k in range(ctx.n(12, 40))]
    ctx.rng.shuffle(jobs)
    jobs.sort(key=lambda j: j[0] != "serve")

    def one(j):
        if ctx.left(60, 900) > 0:
            return globals()[j[0]](ctx, j[1])
    one.__name__ = "scenario"
    try:
        ctx.pmap(one, jobs, 8)
    finally:
        for p in c17.DAEMONS:
            try:
                if b"nsca-ng" in c17.read(f"/proc/{p}/cmdline"):
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
