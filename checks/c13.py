"""C13: the server is free of memory errors and undefined behaviour.  Oracle: AddressSanitizer,
UndefinedBehaviorSanitizer, LeakSanitizer (at orderly ends) and Valgrind memcheck."""
import random, socket, threading, xml.etree.ElementTree as ET
import flow
from nlib import *
from c12 import raw, partial_handshake, alert, quiet

TECHNIQUE = "sanitizers: ASan, UBSan, LSan and Valgrind memcheck on the real server under generated sessions, configurations, faults and signals"
NOTE = ("Generated sessions (grammar-based and byte-level), handshakes cut or damaged at random, random configurations, command-file states, "
        "injected I/O faults and signals at awkward moments, all on sanitized builds with and without POSIX AIO; every server must end "
        "in an orderly way, without a report and without leaked memory.")
RULE = ("one case = one generated session, configuration or fault/signal scenario; distinct = distinct generated inputs; non-trivial = "
        "the instrumented server processed it and its report files were inspected")
ASSUMPTIONS = ["memory still reachable at exit (open connections, OpenSSL tables) is not a leak",
               "uninitialised reads inside libcrypto/libssl themselves are not judged"]
AUTH = ('authorize "id" {\n password = "pw"\n commands = {".*"}\n}\n'
        'authorize "two" {\n password = "pw2"\n hosts = {"web[0-9]+", "a|b"}\n services = {"disk@web.*", "load"}\n}\n'
        'authorize "three" {\n password = "pw3"\n}\n'
        'authorize "*" {\n password = "any"\n commands = "X.+"\n}\n')
LONG = [255, 256, 257, 511, 512, 513, 514, 2000]
AUTH += "".join('authorize "long%d" {\n password = "%s"\n}\n' % (n, "k" * n) for n in LONG)
IDS = [(b"id", b"pw"), (b"two", b"pw2"), (b"three", b"pw3"), (b"whoever", b"any"), (b"%s%n%x", b"any"), (b"x" * 127, b"any")]
WORDS = [b"MOIN", b"PING", b"PUSH", b"NOOP", b"QUIT", b"BAIL", b"moin", b"pUsH", b"MOINX", b"PUS", b"OKAY", b"FAIL", b"", b" ", b"\t"]
ARGS = [b"", b" ", b" 1", b"  1", b" 0", b" -1", b" 1 a", b" 1 a b", b" 1  a ", b" x y", b" 99999999999999999999", b" 2147483647", b" 2147483648",
        b" 1 \xff\x80", b" 1 %s%n%d", b" 1 " + b"i" * 900, b" \0 1", b" 1\0 x", b"\r", b" 16384", b" 16385", b" 4294967297", b" 1\t2", b"\x0b1"]
PAYLOADS = [b"\n", b"[", b"]", b"[]\n", b"[1]\n", b"[1] \n", b"[1500000000] C;x\n", b"[1500000000] C;x", b"[1500000000]C;x\n", b"[x] C\n", b"\0", b"[1500000000] C\0x\n",
            b"[1500000000] PROCESS_HOST_CHECK_RESULT;web1;0;fine\n", b"[1500000000] PROCESS_SERVICE_CHECK_RESULT;web1;disk;0;fine\n",
            b"[1500000000] PROCESS_HOST_CHECK_RESULT;;;\n", b"[1500000000] C;%s%n%d%x\n", b"[99999999999999999999999] C\n", b"[1500000000] " + b";" * 4000 + b"\n",
            b"[1500000000] X\xff\xfe\x80\n", b"[1500000000] C;a\nb\n", b"\n\n", b"[1500000000] X" + b"y" * 16000 + b"\n"]


def rnd(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def script(r):
    """-> list of byte strings to send (after the handshake)."""
    out = []
    if r.random() < 0.85:
        out.append(b"MOIN 1 " + r.choice([b"abcdefgh", b"x", b"%n%n", b"\xff", b"i" * r.choice([1, 300, 900])]) + r.choice([b"\r\n", b"\n"]))
    for _ in range(r.choice([1, 3, 8, 20])):
        k = r.random()
        if k < 0.35:
            p = r.choice(PAYLOADS) if r.random() < 0.8 else rnd(r, r.choice([1, 2, 10, 600, 5000]))
            n = len(p) + (r.choice([0, 0, 0, 0, 1, -1, 5]) if r.random() < 0.3 else 0)
            out.append(b"PUSH %d\r\n" % max(n, 0))
            out.append(p)
        elif k < 0.75:
            out.append(r.choice(WORDS) + r.choice(ARGS) + r.choice([b"\r\n", b"\n", b"\r\r\n", b"\0\n", b"\n\n"]))
        elif k < 0.9:
            b = bytearray(r.choice(WORDS) + r.choice(ARGS) + b"\r\n")
            for _ in range(r.choice([1, 2, 5])):
                if b:
                    b[r.randrange(len(b))] = r.getrandbits(8)
            out.append(bytes(b))
        else:
            out.append(rnd(r, r.choice([1, 1023, 1024, 1025, 2047, 2048, 2049, 5000])))
    return out


def session(ctx, srv, seed):
    r = random.Random(seed)
    ident, key = r.choice(IDS)
    sc = script(r)
    ctx.case(tuple(sc))
    ctx.count("sessions")
    try:
        s = sess(srv.port, ident, key, 5, moin=False, version=r.choice(["1.2", "1.3"]))
        how = r.random()
        if how < 0.3:
            for b in sc:
                s.e.send(b)
                quiet(lambda: s.e.readline(0.05))
        elif how < 0.6:
            s.e.send(b"".join(sc))
        else:
            data = b"".join(sc)
            while data:
                n = r.choice([1, 2, 7, 100, 1400, 16000])
                if len(data) > 3000:
                    n = max(n, 1000)
                s.e.send(data[:n])
                data = data[n:]
                if r.random() < 0.1:
                    time.sleep(0.001)
        end = r.random()
        if end < 0.3:
            s.e.send(b"\r\nQUIT\r\n")
            quiet(lambda: s.e.read_to_end(0.3))
        elif end < 0.5:
            s.e.shutdown()
        elif end < 0.6:
            s.e.send_raw(alert(2, r.choice([0, 10, 20, 80])))
        elif end < 0.7:
            s.e.send_raw(rnd(r, r.choice([3, 40])))
        s.e.close(rst=r.random() < 0.3)
    except (Closed, TLSError, TimeoutError, OSError):
        ctx.count("sessions ended by the server")


def hostile(ctx, srv, seed):
    """Below the protocol."""
    r = random.Random(seed)
    ctx.count("broken handshakes")
    ctx.case(("hostile", seed))

    def go():
        k = r.randrange(4)
        if k == 0:
            raw(srv, rnd(r, r.choice([0, 1, 5, 100, 5000])), r.choice(["close", "rst", "half"]), 0.001)
        elif k == 1:
            e = tlspsk.Endpoint(None, "client", b"id", b"pw", version=r.choice(["1.2", "1.3"]))
            e.step()
            h = bytearray(e.pending_out())
            for _ in range(r.choice([1, 2, 8])):
                h[r.randrange(len(h))] = r.getrandbits(8)
            raw(srv, bytes(h[:r.randrange(1, len(h) + 1)]), r.choice(["close", "rst", "half"]), 0.001)
        else:
            e = partial_handshake(srv, r.choice([1, 2, 3]), r, r.choice(["1.2", "1.3"]), r.choice([b"pw", b"no"]), r.choice([b"id", b"no", b""]))
            if r.random() < 0.6:
                e.send_raw(r.choice([rnd(r, 20), alert(r.choice([1, 2]), r.randrange(120)), b"\x17\x03\x03\x00\x10" + rnd(r, 16)]))
            e.close(rst=r.random() < 0.5)
    quiet(go)


def protocol(ctx, variant, seed, n, opts):
    with Server(ctx, variant=variant, auth=AUTH, opts=opts, loglevel=5) as srv:
        def worker(k):
            for i in range(n):
                if ctx.left(55, 900) < 0:
                    return
                (hostile if (i + k) % 5 == 4 else session)(ctx, srv, f"{seed}/{k}/{i}")
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for n in LONG:
            quiet(lambda: sess(srv.port, b"long%d" % n, b"k" * min(n, 512), 5, version="1.2" if n % 2 else "1.3").close())
        for _ in range(5):
            s = sess(srv.port)
            a = s.push(b"[1500000000] C;end\n")
            if not a.startswith(b"BAIL") or "timeout = 1" not in opts:
                break
            ctx.count("short timeout met when the machine was busy")
        if a != b"OKAY\r\n":
            raise Violation("the server no longer serves", f"{variant} {opts!r} {a!r} status {srv.p.poll()}\n{srv.stderr()[-1000:].decode('latin-1')}")
        s.quit()
        nulls(srv)


def faults(ctx, variant, ctl, sig, seed):
    """I/O faults, then a signal at an awkward moment."""
    tag = (variant, ctl, str(sig), seed)
    r = random.Random(repr(tag))
    with Server(ctx, variant=variant, mon=True, auth=AUTH, opts="max_command_size = 0\nmax_queue_size = 1", loglevel=5, reading=r.random() < 0.8) as srv:
        f = flow.Flow(srv, repr(tag))
        s = sess(srv.port)
        srv.set_ctl(ctl)
        for z in [60, 5000, 60, 4096, 4097, 200000, 60] + ([1000000, 100000, 200000] if seed % 3 == 1 else []):
            f.push(s, b"a", z)
        if r.random() < 0.5:
            time.sleep(r.random() * 0.05)
            srv.set_ctl("aiodelay=150")
        if r.random() < 0.4:
            srv.fifo.close_reader()
            for z in [60, 60, 5000, 60]:
                f.push(s, b"b", z)
        if r.random() < 0.4:
            srv.fifo.pause()
            for _ in range(80):
                f.push(s, b"c", 1000)
        # open connections in various phases when the signal comes
        keep = [raw(srv, b"\x16\x03\x01", "keep"), partial_handshake(srv, 1, r, "1.2"), sess(srv.port, moin=False), sess(srv.port)]
        keep[3].cmd(b"PUSH 1000")
        f.push(s, b"d", 6000)
        f.push(s, b"d", 60)
        time.sleep(r.choice([0, 0.01, 0.2]))
        ctx.case(tag)
        ctx.count("fault scenarios")
        if sig == signal.SIGHUP:
            srv.p.send_signal(sig)
            if not wait_for(lambda: b"starting up" in srv.stderr()[srv.stderr().find(b"Restarting"):] and b"Restarting" in srv.stderr(), 20):
                srv.check_alive()
                raise Violation("the server did not restart after SIGHUP", srv.stderr()[-1500:], soft=True)
            srv.set_ctl("")
            s = sess(srv.port)
            if s.push(b"[1500000000] C;after\n") != b"OKAY\r\n":
                raise Violation("the server does not serve after SIGHUP", "")
            s.quit()
            sig = signal.SIGTERM
        srv.stop(sig)
        for k in keep:
            k.close()


def failing_restart(ctx, how):
    """SIGHUP when the server cannot execute itself again, or its new configuration is no good."""
    d = ctx.dir("srv")
    exe = os.path.join(d, "nsca-ng")
    program(exe, src=build.server("asan"))

    class S(Server):
        def binary(self):
            return exe
    srv = S(ctx, dir=d, auth=AUTH, args=["-P", os.path.join(d, "pid")])
    s = sess(srv.port)
    s.push(b"[1500000000] C;x\n")
    if how == "exec":
        os.rename(exe, exe + ".gone")
    elif how == "conf":
        with open(srv.cfile, "a") as f:
            f.write("nonsense = 1\n")
    elif how == "noconf":
        os.unlink(srv.cfile)
    elif how == "port":
        with open(srv.cfile, "a") as f:
            f.write('authorize "id" {\n password = "x"\n}\n')
    srv.p.send_signal(signal.SIGHUP)
    try:
        rc = srv.p.wait(30)
    except subprocess.TimeoutExpired:
        raise Violation(f"the server goes on although it cannot restart ({how})", srv.stderr()[-1000:], soft=True)
    finally:
        if srv.p.poll() is None:
            srv.p.kill()
        srv.fifo.shutdown()
    ctx.case(("restart", how))
    ctx.count("failing restarts")
    rep = srv.reports()
    if rep or rc not in (1,):
        raise Violation(f"failing restart ({how}): status {rc}; " + first_line(rep or srv.stderr().decode("latin-1")), (rep or srv.stderr().decode("latin-1"))[-6000:])


def rconf(r, d):
    """A random configuration, valid or not."""
    vals = ['"x"', "1", "-1", "0", "1.5", "99999999999999999999", '""', "{}", '{"a", "b"}', '{"a" "b"}', '"("', '"[a-"', '"a{2,1}"', '"\\\\"', "'q'", '"${HOME}"',
            '"${NOPE:-dflt}"', '"' + "y" * 3000 + '"', '"%s%n"', '"a@b@c"', '"@"', '"' + "(" * 50 + ")" * 50 + '"', '"a\\x41\\101\\n"', '"\xe4\xff"', "", "include", '"' + ".*" * 100 + '"']
    keys = ["command_file", "temp_directory", "log_level", "max_command_size", "max_queue_size", "timeout", "tls_ciphers", "listen", "password", "commands", "hosts", "services",
            "pid_file", "user", "chroot", "nonsense", "include", "authorize", ""]
    t = ""
    if r.random() < 0.6:
        # valid on the whole, with at most one odd setting
        sound = {"log_level": ["0", "5"], "max_command_size": ["0", "1", "9999999"], "max_queue_size": ["0", "5"], "timeout": ["0", "0.5", "1e3"], "password": ['"g"'],
                 "commands": ['".*"', '{"a", "b|c", "\\\\d"}', '{}'], "hosts": ['"a.*"', '{"a|b", "[x]+"}'], "services": ['"s@h"', '{"s", "@", "a@b@c"}'], "tls_ciphers": ['"PSK"']}
        for k in r.sample(sorted(sound), r.choice([0, 2, 5])):
            t += f"{k} = {r.choice(sound[k])}\n"
        for i in range(r.choice([1, 1, 2, 30])):
            t += f'authorize "i{i}" {{\n password = "p{i}"\n'
            for k in r.sample(["commands", "hosts", "services"], r.choice([0, 1, 3])):
                t += f" {k} = {r.choice(sound[k])}\n"
            t += "}\n"
        if r.random() < 0.4:
            t += f"{r.choice(keys)} = {r.choice(vals)}\n"
        return t.encode("latin-1")
    for _ in range(r.choice([0, 1, 1, 2, 5])):
        t += f"{r.choice(keys)} = {r.choice(vals)}\n"
    if r.random() < 0.3:
        inc = os.path.join(d, "inc")
        t += f"include({r.choice([inc, '/nonexistent', d, '', '~', '~nobodyatall/x', '/dev/null'])!r})\n"
    for _ in range(r.choice([0, 1, 1, 2])):
        t += 'authorize ' + r.choice(['"id"', '"*"', '""', '"%s%n"', "id", '"' + "i" * 300 + '"']) + " {\n"
        for _ in range(r.choice([0, 1, 2, 4])):
            t += f" {r.choice(['password', 'commands', 'hosts', 'services', 'nope'])} = {r.choice(vals)}\n"
        t += r.choice(["}\n", "}\n", "}\n", "", "}}\n"])
    if r.random() < 0.3:
        b = bytearray(t.encode("latin-1"))
        for _ in range(r.choice([1, 3])):
            if b:
                b[r.randrange(len(b))] = r.getrandbits(8)
        return bytes(b)
    return t.encode("latin-1")


def configuration(ctx, seed):
    r = random.Random(seed)
    d = ctx.dir("cfg")
    c = os.path.join(d, "c.cfg")
    txt = rconf(r, d)
    if re.search(rb"chroot|user\b|include[^\n]*(~|/')", txt) and r.random() < 2:
        # never let a random configuration change root or wander through the file system
        txt = re.sub(rb"chroot|user\b", b"timeout", txt)
    with open(os.path.join(d, "inc"), "wb") as f:
        f.write(rconf(r, d).replace(b"chroot", b"timeout").replace(b"user", b"timeout"))
    with open(c, "wb") as f:
        f.write(txt)
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    srv = Server(ctx, dir=d, start=False, fifo=False)
    port = free_port()
    args = ["-F", "-c", r.choice([c, c, c, d]), "-C", os.path.join(d, "cmd"), "-b", f"127.0.0.1:{port}", "-l", str(r.choice([5, 5, 0, 9])), "-P", os.path.join(d, "pid")]
    with open(srv.err, "wb") as ef:
        p = ctx.spawn([build.server("asan"), *args], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=srv.environ(), cwd=d)
    ok = wait_for(lambda: p.poll() is not None or listening(port), 20)
    started = False
    if p.poll() is None:
        started = True
        p.terminate()
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Violation("server does not stop", txt, soft=True)
    ctx.case(txt)
    ctx.count("configurations")
    ctx.count("configurations accepted", int(started))
    rep = srv.reports()
    if rep and started or "ERROR: AddressSanitizer" in rep or "runtime error" in rep:
        raise Violation("configuration: " + first_line(rep), f"{txt!r}\n{args}\n{rep[:5000]}")
    if p.returncode not in (0, 1, 23) and not (p.returncode == -15):
        raise Violation(f"configuration: server ended with status {p.returncode}", f"{txt!r}\n{srv.stderr()[-2000:]!r}")
    shutil.rmtree(d, ignore_errors=True)


def options(ctx, argv):
    d = ctx.dir("opt")
    srv = Server(ctx, dir=d, start=False, fifo=False)
    with open(srv.err, "wb") as ef:
        p = ctx.spawn([build.server("asan"), *argv], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=srv.environ(), cwd=d)
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Inconclusive(f"{argv} keeps running")
    ctx.case(tuple(argv))
    rep = srv.reports()
    if "ERROR: AddressSanitizer" in rep or "runtime error" in rep or p.returncode not in (0, 1, 23):
        raise Violation(f"options {argv}: status {p.returncode} {first_line(rep)}", rep[:5000])


def no_socket(ctx, listen):
    """Nothing to listen on."""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    s.listen()
    if listen is None:
        listen = "127.0.0.1:%d" % s.getsockname()[1]
    d = ctx.dir("nosock")
    srv = Server(ctx, dir=d, auth=AUTH, start=False)
    cfg = os.path.join(d, "cfg")
    with open(cfg, "w") as f:
        f.write(srv.conf_text())
    with open(srv.err, "wb") as ef:
        p = ctx.spawn([build.server("asan"), "-F", "-c", cfg, "-b", listen], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=srv.environ(), cwd=d)
    try:
        p.wait(6)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        ctx.count("odd listen addresses served")
    s.close()
    nulls(srv)
    rep = srv.reports()
    if "ERROR: AddressSanitizer" in rep or "runtime error" in rep:
        raise Violation(f"listening on {listen}: {first_line(rep)}", rep[:5000])
    ctx.case(("listen", listen if ":1" not in listen else ""))


def addresses(ctx, variant, listen):
    """Clients of all kinds of addresses, down to the longest text forms."""
    d = ctx.dir("srv")
    port = free_port()
    srv = Server(ctx, variant=variant, dir=d, auth=AUTH, start=False)
    srv.port = port
    cfg = os.path.join(d, "cfg")
    with open(cfg, "w") as f:
        f.write(srv.conf_text())
    with open(srv.err, "wb") as ef:
        srv.p = p = ctx.spawn([build.server(variant), "-F", "-l", "5", "-c", cfg, "-b", f"{listen}:{port}"], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=srv.environ(), cwd=d)
    n = 0
    try:
        wait_for(lambda: p.poll() is not None or listening(port), 15)
        own = {"127.0.0.1", "::1"}
        try:
            for l in open("/proc/net/if_inet6"):
                a = l.split()
                if a[3] == "00":	# Global scope.
                    own.add(socket.inet_ntop(socket.AF_INET6, bytes.fromhex(a[0])))
        except OSError:
            pass
        for dst in sorted(own):
            for src in [dst] if ":" in dst else ["127.0.0.1", "127.10.20.30", "127.255.255.254", "127.100.100.100"]:
                c = socket.socket(socket.AF_INET6 if ":" in dst else socket.AF_INET)
                c.settimeout(10)
                try:
                    c.bind((src, 0))
                    c.connect((dst, port))
                except OSError:
                    c.close()
                    continue
                for kind in ("session", "junk"):
                    if kind == "junk":
                        c = socket.socket(c.family)
                        c.settimeout(10)
                        c.bind((src, 0))
                        c.connect((dst, port))
                        c.sendall(b"GET / HTTP/1.0\r\n\r\n")
                        quiet(lambda: c.recv(100))
                        c.close()
                    else:
                        e = tlspsk.Endpoint(c, "client", b"id", b"pw")
                        e.handshake(10)
                        s = Sess(e).moin()
                        a = s.push(b"[1500000000] C;x\n")
                        s.cmd(b"nonsense")
                        quiet(s.quit)
                        if a != b"OKAY\r\n":
                            raise Violation("the server no longer serves", f"{listen} {src}: {a!r} status {p.poll()}\n{srv.stderr()[-1000:].decode('latin-1')}")
                    ctx.case(("address", variant, listen, src, kind))
                    n += 1
        ctx.count("client addresses", n)
    except (Closed, TLSError, OSError) as x:
        rep = srv.reports()
        if "ERROR: AddressSanitizer" in rep or "runtime error" in rep:
            raise Violation(f"clients of {listen}: {first_line(rep)}", rep[:5000])
        raise Inconclusive(f"{listen}: {x}")
    finally:
        p.terminate()
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        srv.fifo.shutdown()
    nulls(srv)
    rep = srv.reports()
    if "ERROR: AddressSanitizer" in rep or "runtime error" in rep:
        raise Violation(f"clients of {listen}: {first_line(rep)}", rep[:5000])


def memcheck(ctx, variant, seed, n):
    """Uninitialised memory: Valgrind on a mixed workload."""
    d = ctx.dir("srv")
    xml = os.path.join(d, "vg.xml")
    wrapper = ["valgrind", "--quiet", "--xml=yes", f"--xml-file={xml}", "--track-origins=no", "--leak-check=full", "--show-leak-kinds=definite",
               "--errors-for-leak-kinds=definite", "--num-callers=20", "--child-silent-after-fork=yes"]
    srv = Server(ctx, variant=variant, dir=d, auth=AUTH, opts="max_command_size = 0\ntimeout = 30", wrapper=wrapper, nofile=256)
    for i in range(n):
        session(ctx, srv, f"vg/{seed}/{i}")
        if i % 4 == 0:
            hostile(ctx, srv, f"vg/{seed}/{i}")
    f = flow.Flow(srv, seed)
    s = sess(srv.port, timeout=60)
    for z in [60, 5000, 60, 60, 4096, 4097, 100000, 60]:
        f.push(s, b"a", z)
    lines = f.settle(40)
    s.quit()
    srv.stop(signal.SIGTERM, 60, check=False)
    ctx.count("memcheck runs")
    ctx.case(("memcheck", variant, seed))
    try:
        t = ET.parse(xml).getroot()
    except Exception as e:
        raise Inconclusive(f"valgrind: {e}")
    for err in t.iter("error"):
        frames = [(f.findtext("obj") or "", f.findtext("fn") or "", f.findtext("file") or "", f.findtext("line") or "") for f in err.iter("frame")]
        kind = err.findtext("kind")
        if not frames or kind in ("Leak_StillReachable", "Leak_PossiblyLost", "Leak_IndirectlyLost"):
            continue
        # judged: errors whose innermost frame outside the C library belongs to the server
        own = [f for f in frames if "nsca-ng" in f[0]]
        inner = next((f for f in frames if not re.search(r"/libc|/ld-|vgpreload", f[0])), None)
        if kind == "Leak_DefinitelyLost":
            if own and not any(f[1] == "main" for f in own[:1]):
                raise Violation("memcheck: leaked memory", "\n".join(map(str, frames)))
        elif inner and "nsca-ng" in inner[0] or "Syscall" in kind and own:
            raise Violation(f"memcheck: {kind}: {err.findtext('what') or err.findtext('xwhat/text')}", "\n".join(map(str, frames)))


def timeouts(ctx, variant):
    """Time-outs in every phase, with the logging that goes with them."""
    with Server(ctx, variant=variant, auth=AUTH, opts="timeout = 0.4", loglevel=5) as srv:
        r = random.Random(1)
        keep = [raw(srv, b"", "keep"), raw(srv, b"\x16\x03", "keep")]
        eps = [partial_handshake(srv, 1, r, "1.2"), sess(srv.port, moin=False), sess(srv.port), sess(srv.port), sess(srv.port)]
        eps[3].e.send(b"PUS")
        eps[4].cmd(b"PUSH 100")
        t = time.monotonic()
        while time.monotonic() - t < 1.2:
            raw(srv, b"\x16", "close")
            time.sleep(0.1)
        for k in keep + eps:
            k.close()
        ctx.case(("timeouts", variant))
        for k in range(8):	# The timeout is that short.
            try:
                s = sess(srv.port)
                s.quit()
                break
            except (Closed, TLSError, TimeoutError, OSError, Violation):
                if k == 7:
                    raise
        nulls(srv)


def nulls(srv):
    m = re.search(rb".*\(null\).*", srv.stderr())
    if m:
        raise Violation("a null pointer was passed for %s", m.group(0))


def run(ctx):
    jobs = []
    optss = ["timeout = 60", "max_command_size = 0\ntimeout = 1", "max_command_size = 50\ntimeout = 0"]
    for i in range(ctx.n(4, 24)):
        jobs.append((protocol, (("asan", "asan-noaio")[i % 2], f"{ctx.seed}/{i}", ctx.n(90, 400), optss[i % 3])))
    ctls = ["", "aiodelay=150", "aio=fail", "aio=eio", "aio=short", "mkstemp=fail", "eintr=2", "eagain=2", "aiodelay=60 eintr=3"]
    nctl = ["", "mkstemp=fail", "write=short", "write=fail", "write=eintr", "eintr=2"]
    k = 0
    for rep in range(ctx.n(2, 8)):
        for c in ctls:
            for sig in (signal.SIGTERM, signal.SIGHUP) if c in ("", "aiodelay=150") or ctx.thorough else ((signal.SIGTERM, signal.SIGINT, signal.SIGHUP)[k % 3],):
                jobs.append((faults, ("asan", c, sig, k + 100 * (ctx.seed - 1))))
                k += 1
        for c in nctl:
            jobs.append((faults, ("asan-noaio", c, (signal.SIGTERM, signal.SIGINT, signal.SIGHUP)[k % 3], k + 100 * (ctx.seed - 1))))
            k += 1
    for how in ("exec", "conf", "noconf", "port"):
        jobs.append((failing_restart, (how,)))
    for i in range(ctx.n(120, 1500)):
        jobs.append((configuration, (f"{ctx.seed}/{i}",)))
    for a in (["-h"], ["-V"], ["--help"], ["--version"], ["-x"], ["-F", "extra"], ["-c", "/nonexistent"], ["-b"], ["-F", "-l", "x", "-c", "/nonexistent"],
              ["-S", "-c", "/nonexistent"], ["-b", "a", "-b", "b", "-C", "c", "-C", "d", "-c", "/e", "-c", "/nonexistent", "-P", "p", "-P", "q", "-l", "-5", "-s", "-S"], ["--", "x"], [""]):
        jobs.append((options, (a,)))
    for a in (None, "no.such.host.invalid:5", "192.0.2.1:4000", "127.0.0.1:http-no-such", "", ":", "[::1]", "x" * 3000, "%n%s:%d"):
        jobs.append((no_socket, (a,)))
    for a in ("[::]", "127.0.0.1", "[::1]"):
        jobs.append((addresses, ("asan", a)))
    for v in ("asan", "asan-noaio"):
        jobs.append((timeouts, (v,)))
    for i in range(ctx.n(1, 8)):
        jobs.append((memcheck, (("plain", "noaio")[i % 2], f"{ctx.seed}/{i}", ctx.n(25, 150))))
    jobs.sort(key=lambda j: {memcheck: 0, protocol: 1, faults: 2, failing_restart: 2, timeouts: 2}.get(j[0], 3))
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(60, 1000) > 0 else None, jobs, 12)
