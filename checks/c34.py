"""C34: waiting costs no processor time.  Oracle: run time and context switches of the process, as the
kernel accounts for them, while there is nothing to do."""
import fcntl, pty, random, threading
import bindcheck, cl, flow
from bindcheck import Driver, Hub2, Obj
from c12 import partial_handshake, raw
from c15 import Conn
from nlib import *

TECHNIQUE = "runtime monitoring: kernel accounting of run time and wake-ups of the real programs, brought into every state of waiting by scripted and random histories"
NOTE = ("The server, send_nsca and the interpreters running the bindings are brought into states in which they have to wait (every phase of a session, stalled, missing and "
        "vanished readers, full pipes, spool files that cannot be written, clients that stop reading or never answer the shutdown, half-closed connections, used up descriptors, "
        "slow standard input, stalling servers, random histories frozen at some point); there, the run time that the kernel accounts to all of their threads "
        "and the number of wake-ups must fall below a small bound.")
RULE = ("one case = one state of waiting observed in one process; distinct = distinct (program, state, variant); non-trivial = the process was alive and "
        "in that state during the whole window")
ASSUMPTIONS = ["a program that waits actively uses more than 4 % of a processor, or wakes up more than 40 times per second"]
F_SETPIPE_SZ = 1031
WINDOW = 0.4


def usage(pid):
    """-> (seconds of run time, wake-ups) of all threads"""
    ns = sw = 0
    for t in os.listdir(f"/proc/{pid}/task"):
        try:
            with open(f"/proc/{pid}/task/{t}/schedstat") as f:
                ns += int(f.read().split()[0])
            with open(f"/proc/{pid}/task/{t}/status") as f:
                for l in f:
                    if "ctxt_switches" in l:
                        sw += int(l.split()[1])
        except OSError:
            pass
    return ns / 1e9, sw


def calm(ctx, pid, tag, who, limit=8.0, need=2):
    """The process calms down: `need` windows in a row without noteworthy activity."""
    end = time.monotonic() + limit
    n, seen = 0, []
    while n < need:
        try:
            a, t0 = usage(pid), time.monotonic()
            time.sleep(WINDOW)
            b, t1 = usage(pid), time.monotonic()
        except (FileNotFoundError, ProcessLookupError):
            raise Gone(tag)
        cpu, sw, dt = b[0] - a[0], b[1] - a[1], t1 - t0
        seen.append((round(cpu, 4), sw, round(dt, 2)))
        quiet = cpu <= 0.04 * dt and sw <= 40 * dt
        n = n + 1 if quiet else 0
        ctx.count("windows observed")
        if not quiet and time.monotonic() > end:
            raise Violation(f"{who} keeps running although it has nothing to do", f"{tag}: (run time, wake-ups, duration) per window: {seen[-8:]}", soft=True)
    ctx.case((who, tag))


class Gone(Exception):
    pass


# -- the server ----------------------------------------------------------------

PHASES = ["tcp", "hello", "flight", "garbage", "H", "moin", "line", "failed", "announced", "payload", "after", "quit", "ping", "bail"]


def start(ctx, variant, opts="timeout = 0", **kw):
    return Server(ctx, variant=variant, loglevel=kw.pop("loglevel", 0), opts="max_command_size = 0\n" + opts, **kw)


def idle(ctx, variant, seed):
    r = random.Random(f"{ctx.seed}/idle{variant}{seed}")
    for reading in (True, False):
        with start(ctx, variant, reading=reading, loglevel=r.choice([0, 5])) as srv:
            calm(ctx, srv.p.pid, f"idle, reader {reading} {variant}", "the server")
            conns = []
            for ph in PHASES * 2:
                try:
                    conns.append(Conn(srv, ph, r))
                except (Closed, TimeoutError, TLSError, OSError):
                    pass
                if r.random() < .4:
                    calm(ctx, srv.p.pid, f"connections up to {ph} {variant} {reading}", "the server", need=1)
            calm(ctx, srv.p.pid, f"connections in all phases, reader {reading} {variant}", "the server")
            # one after the other says that it won't send anything more, or sends an alert, or goes away
            r.shuffle(conns)
            for n, c in enumerate(conns):
                sock = c.sock
                try:
                    w = r.random()
                    if w < .5:
                        sock.shutdown(socket.SHUT_WR)
                    elif w < .65 and c.s:
                        c.s.e.notify()
                    elif w < .8:
                        sock.sendall(r.randbytes(r.choice([1, 5, 100])))
                    else:
                        sock.shutdown(socket.SHUT_RD)
                except (OSError, Closed, AttributeError):
                    pass
                if n % 5 == 4:
                    calm(ctx, srv.p.pid, f"half-closed connections {n} {reading} {variant}", "the server", need=1)
            calm(ctx, srv.p.pid, f"half-closed connections, reader {reading} {variant}", "the server")
            srv.p.send_signal(signal.SIGHUP)
            time.sleep(.5)
            calm(ctx, srv.p.pid, f"after a reload, reader {reading} {variant}", "the server")
            srv.check_alive()


def pipe(ctx, variant, kind, seed):
    r = random.Random(f"{ctx.seed}/pipe{variant}{kind}{seed}")
    tag = f"pipe {kind} {variant}"
    with start(ctx, variant) as srv:
        fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, r.choice([4096, 65536]))
        f = flow.Flow(srv, tag)
        ss = [(sess(srv.port), b"s%d" % k) for k in range(3)]

        def fill(sizes):
            for _ in range(40):
                f.push(*r.choice(ss), flow.sizes(r, sizes))
        fill("small")
        f.settle(10)
        calm(ctx, srv.p.pid, f"{tag}: before", "the server", need=1)
        if kind == "stalled":
            srv.fifo.pause()
            for s in ("small", "mixed", "edge"):
                fill(s)
                calm(ctx, srv.p.pid, f"{tag}: {s}", "the server")
            srv.fifo.resume()
        elif kind == "vanished":
            srv.fifo.pause()
            fill("mixed")
            srv.fifo.close_reader()
            calm(ctx, srv.p.pid, f"{tag}: reader gone", "the server")
            fill("small")
            calm(ctx, srv.p.pid, f"{tag}: queueing", "the server")
            time.sleep(10.5)            # (it has tried to open the pipe again)
            calm(ctx, srv.p.pid, f"{tag}: still no reader", "the server")
            srv.fifo.resume()
            srv.fifo.open()
        elif kind == "idle vanished":
            srv.fifo.close_reader()
            calm(ctx, srv.p.pid, f"{tag}: reader gone", "the server")
            if seed % 2 == 0:
                for _ in range(3):
                    f.push(*r.choice(ss), 50)
                time.sleep(10.5)
                calm(ctx, srv.p.pid, f"{tag}: still no reader", "the server")
            srv.fifo.open()
        elif kind == "no spool directory":
            os.rename(srv.tmpdir, srv.tmpdir + ".x")
            srv.fifo.pause()
            fill("edge")
            srv.fifo.resume()
            for _ in range(3):
                f.push(*r.choice(ss), 20000)
            calm(ctx, srv.p.pid, f"{tag}: cannot spool", "the server")
            os.rename(srv.tmpdir + ".x", srv.tmpdir)
        srv.check_alive()
        # and it is calm again when everything has been handed over
        for _ in range(5):
            f.push(*r.choice(ss), 50)
        f.settle(15)
        calm(ctx, srv.p.pid, f"{tag}: afterwards", "the server", need=1)


def unread(ctx, variant, kind, seed):
    """Clients that do not read their responses."""
    r = random.Random(f"{ctx.seed}/unread{variant}{kind}{seed}")
    tag = f"responses not read, {kind} {variant}"
    with start(ctx, variant, opts="timeout = 2" if kind == "timed out" else "timeout = 0") as srv:
        e = tlspsk.session(srv.port, timeout=20, rcvbuf=4096, version=r.choice(["1.2", "1.3"]))
        e.send(b"MOIN 1 abcdefgh\r\n")
        e.sock.settimeout(1)
        try:
            for _ in range(600):
                e.send(r.choice([b"X\r\n", b"NOOP\r\n"]) * 1000)
        except (OSError, TimeoutError, Closed):
            pass
        if kind == "timed out":
            time.sleep(2.2)
        elif kind == "half-closed":
            e.sock.shutdown(socket.SHUT_WR)
        calm(ctx, srv.p.pid, tag, "the server", need=3)
        s = sess(srv.port)
        s.cmd(b"NOOP")
        s.quit()
        srv.check_alive()


def exhausted(ctx, variant):
    """All descriptors used up with a connection waiting to be accepted."""
    with start(ctx, variant, nofile=40) as srv:
        s = sess(srv.port)
        conns = [raw(srv, b"", "keep") for _ in range(60)]
        time.sleep(.3)
        calm(ctx, srv.p.pid, f"descriptors used up {variant}", "the server")
        s.cmd(b"NOOP")
        for c in conns:
            c.close()
        calm(ctx, srv.p.pid, f"descriptors available again {variant}", "the server")
        sess(srv.port).quit()
        s.quit()
        srv.check_alive()


def history(ctx, variant, seed):
    """Random histories, frozen now and then."""
    r = random.Random(f"{ctx.seed}/history{variant}{seed}")
    with start(ctx, variant, loglevel=r.choice([0, 0, 5]), opts=r.choice(["timeout = 0", "timeout = 30", "timeout = 2"])) as srv:
        if r.random() < .7:
            fcntl.fcntl(srv.fifo.fd, F_SETPIPE_SZ, 4096)
        f = flow.Flow(srv, f"{seed}")
        ss, conns, trace = [], [], []
        k = 0
        paused = False
        for step in range(ctx.n(24, 60)):
            w = r.random()
            try:
                if w < .15 or not ss:
                    k += 1
                    ss.append((sess(srv.port, version=r.choice(["1.2", "1.3"])), b"s%d" % k))
                    trace.append("session")
                elif w < .5:
                    for _ in range(r.choice([1, 5, 30])):
                        f.push(*r.choice(ss), flow.sizes(r, r.choice(["small", "mixed", "edge"])))
                    trace.append("push")
                elif w < .6:
                    (srv.fifo.resume if paused else srv.fifo.pause)()
                    paused = not paused
                    trace.append("paused" if paused else "resumed")
                elif w < .7:
                    s = ss.pop(r.randrange(len(ss)))
                    how = r.choice(["quit", "rst", "half", "fin", "silent quit"])
                    if how == "quit":
                        s[0].quit()
                    elif how == "half":
                        s[0].e.sock.shutdown(socket.SHUT_WR)
                        conns.append(s)
                    elif how == "silent quit":
                        s[0].cmd(b"QUIT")
                        conns.append(s)
                    else:
                        s[0].e.close(rst=how == "rst")
                    trace.append(how)
                elif w < .85:
                    ph = r.choice(PHASES)
                    conns.append(Conn(srv, ph, r))
                    trace.append(ph)
                else:
                    if conns:
                        conns.pop(r.randrange(len(conns)))
                    trace.append("gone")
            except (Closed, TimeoutError, TLSError, OSError, Violation) as e:
                ss = [x for x in ss if x[0].e.sock is not None]
                if not srv.alive():
                    raise
                ss = []
                trace.append(type(e).__name__)
            if r.random() < .3:
                calm(ctx, srv.p.pid, f"history {seed} {variant} {trace}", "the server", need=1)
        calm(ctx, srv.p.pid, f"history {seed} {variant} {trace}", "the server")
        srv.check_alive()


# -- send_nsca -----------------------------------------------------------------

def spawn_client(ctx, stdin, conf, variant="plain", args=()):
    d = ctx.dir("cl")
    c = os.path.join(d, "c.cfg")
    with open(c, "wb") as f:
        f.write(conf)
    return ctx.spawn([build.client(variant), "-c", c, *args], stdin=stdin, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d)


def slow_input(ctx, how, when, raw_mode):
    """Standard input that does not come for a while."""
    tag = f"waiting for input, {how}, {when}, {'-C' if raw_mode else 'results'}"
    hub = cl.Hub(ctx)
    i = hub.add()
    if how == "pipe":
        rd, wr = os.pipe()
    elif how == "socket":
        a, b = socket.socketpair()
        rd, wr = a.detach(), b.detach()
    elif how == "tty":
        wr, rd = pty.openpty()
        import termios
        t = termios.tcgetattr(rd)
        t[0], t[1], t[3] = 0, 0, termios.ICANON
        termios.tcsetattr(rd, termios.TCSANOW, t)
    p = spawn_client(ctx, rd, cl.conf(i, hub.port, timeout=20), args=["-C"] if raw_mode else [])
    os.close(rd)
    one = b"[1500000000] C;x\n" if raw_mode else b"h\t0\tok\x17"
    try:
        if when == "partial":
            os.write(wr, one[:-2] if how != "tty" else one[:3] + b"\n" if not raw_mode else b"")
        elif when == "one":
            os.write(wr, one + (b"\n" if how == "tty" else b""))
        elif when == "many":
            os.write(wr, one * 50 + (b"\n" if how == "tty" else b""))
        time.sleep(.3)
        if p.poll() is not None:
            raise Violation("send_nsca didn't wait for its input", f"{tag} {p.returncode}", soft=True)
        calm(ctx, p.pid, tag, "send_nsca", need=2)
    except Gone:
        raise Violation("send_nsca didn't wait for its input", f"{tag} {p.returncode}", soft=True)
    finally:
        os.close(wr)
        p.kill()
        p.wait()
        hub.close()


def stalling(ctx, kind, version):
    """A server that stalls at some step."""
    tag = f"server stalls at {kind}, TLS {version}"
    lst = socket.socket()
    if kind == "data":
        lst.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
    lst.bind(("127.0.0.1", 0))
    lst.listen(0 if kind == "tcp" else 5)
    socks = []
    if kind == "tcp":
        for _ in range(3):
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex(lst.getsockname())
            socks.append(s)
        time.sleep(.1)
    at, done = threading.Event(), threading.Event()

    def go():
        try:
            c, _ = lst.accept()
            socks.append(c)
            if kind == "hello":
                at.set()
                done.wait(20)
                return
            ep = tlspsk.Endpoint(c, "server", keys=lambda i: b"pw", version=version)
            socks.append(ep)
            if kind == "flight":
                d = ep.recv_raw(10)
                ep.feed(d)
                ep.step()
                out = ep.pending_out()
                ep.send_raw(out[:len(out) // 2])
                at.set()
                done.wait(20)
                return
            ep.handshake(20)
            for name, answer in (("MOIN", b"MOIN 1\r\n"), ("PUSH", b"OKAY\r\n"), ("DATA", b"OKAY\r\n"), ("QUIT", b"OKAY\r\n")):
                if name == "DATA" and kind == "data":
                    at.set()
                    done.wait(20)
                    return
                if name == "DATA":
                    ep.read(int(l.split()[1]), 10)
                else:
                    l = ep.readline(10)
                if name == kind:
                    at.set()
                    done.wait(20)
                    return
                if name + "/" == kind:
                    ep.send(answer[:-2])
                    at.set()
                    done.wait(20)
                    return
                ep.send(answer)
            at.set()
            done.wait(20)
        except (Closed, TimeoutError, TLSError, OSError, AttributeError, TypeError, ValueError):
            pass
    threading.Thread(target=go, daemon=True).start()
    d = ctx.dir("in")
    with open(os.path.join(d, "in"), "wb") as f:
        f.write(b"h\t0\t" + b"x" * (600000 if kind == "data" else 50))
    with open(os.path.join(d, "in"), "rb") as f:
        p = spawn_client(ctx, f, cl.conf(b"x", lst.getsockname()[1], timeout=12))
    try:
        if kind != "tcp" and not at.wait(10):
            raise Violation(f"send_nsca never got to {kind}", tag, soft=True)
        time.sleep(.2)
        calm(ctx, p.pid, tag, "send_nsca", limit=5)
    except Gone:
        if kind != "end":
            raise Violation("send_nsca did not wait for the server", f"{tag} {p.poll()}", soft=True)
    finally:
        done.set()
        p.kill()
        p.wait()
        for s in socks:
            s.close()
        lst.close()


# -- the bindings --------------------------------------------------------------

def binding(ctx, lang, kind):
    r = random.Random(f"{ctx.seed}/{lang}{kind}")
    tag = f"server stalls at {kind}"

    class Loose:
        judge = False

        def __getattr__(self, n):
            return getattr(ctx, n)
    lo = Loose()
    with Hub2(lo) as hub, Driver(lo, lang, "plain") as drv:
        port, hole, fill = hub.port, None, []
        if kind in ("tcp", "hello"):
            hole = socket.socket()
            hole.bind(("127.0.0.1", 0))
            hole.listen(0 if kind == "tcp" else 8)
            port = hole.getsockname()[1]
            if kind == "tcp":
                for _ in range(4):
                    s = socket.socket()
                    s.setblocking(False)
                    s.connect_ex(("127.0.0.1", port))
                    fill.append(s)
                time.sleep(.1)
        o = Obj(lo, r, drv, hub, timeout=4, port=port)
        o.create()
        if kind == "idle":
            o.call(expect="any")
            calm(ctx, drv.p.pid, f"{lang}: connected, nothing to do", f"the {lang} client")
            drv.end()
            return
        a = {"frag": ("frag", .0, [b"OKA"] + [b""] * 0)}.get(kind, ("stall", 30))
        if kind in ("MOIN", "PUSH", "DATA"):
            with o.plan.lock:
                o.plan.faults = {kind: [a] * 8}
        t = threading.Thread(target=quietly, args=(lambda: o.call(expect="any", limit=60),), daemon=True)
        t.start()
        time.sleep(.6)
        try:
            calm(ctx, drv.p.pid, f"{lang}: {tag}", f"the {lang} client", limit=2.5)
        finally:
            hub.down = True
            if hole:
                hole.close()
            drv.p.kill()
            t.join(10)


def quietly(fn):
    try:
        fn()
    except Exception:
        pass


def run(ctx):
    jobs = []
    for rep in range(ctx.n(1, 6)):
        for v in ("plain", "noaio"):
            jobs.append((idle, (v, rep)))
            jobs += [(pipe, (v, k, rep)) for k in ("stalled", "vanished", "idle vanished", "no spool directory")]
            jobs += [(unread, (v, k, rep)) for k in (("open", "timed out", "half-closed") if v == "plain" else ("open",))]
            if not rep:
                jobs.append((exhausted, (v,)))
    for rep in range(ctx.n(6, 80)):
        jobs.append((history, (("plain", "noaio", "plain")[rep % 3], rep)))
    for how in ("pipe", "socket", "tty"):
        for when in ("nothing", "partial", "one", "many"):
            for raw_mode in (False, True):
                jobs.append((slow_input, (how, when, raw_mode)))
    for kind in ("tcp", "hello", "flight", "MOIN", "MOIN/", "PUSH", "PUSH/", "data", "DATA", "DATA/", "QUIT", "QUIT/", "end"):
        for version in ("1.2", "1.3"):
            jobs.append((stalling, (kind, version)))
    for lang in ("python", "perl"):
        for kind in ("idle", "tcp", "hello", "MOIN", "PUSH", "DATA"):
            jobs.append((binding, (lang, kind)))
    ctx.pmap(lambda j: j[0](ctx, *j[1]) if ctx.left(70, 800) > 0 else None, jobs, 40)
