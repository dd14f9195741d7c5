"""Runs of send_nsca against scripted servers."""
import itertools
from nlib import *

STAMP = re.compile(rb"^\[(\d+)\] ")


class Hub:
    """One scripted server shared by many runs, told apart by their identities."""

    def __init__(self, ctx, **kw):
        self.ctx, self.scripts, self.recs, self.n = ctx, {}, {}, itertools.count()
        self.keys = {}
        self.lock = threading.Lock()
        self.fs = FakeServer(self.handle, keys=self.key, **kw)
        self.port = self.fs.port

    def key(self, ident):
        return self.keys.get(ident)

    def add(self, script=None, key=b"pw", ident=None):
        i = ident if ident is not None else b"c%d" % next(self.n)
        self.scripts[i], self.keys[i] = script, key
        self.recs[i] = []
        return i

    def handle(self, ep, rec):
        i = rec["identity"]
        with self.lock:
            self.recs[i].append(rec)
        s = self.scripts[i]
        if s is None or not getattr(s, "whole", False):
            polite(ep, rec, s)
        else:
            s(ep, rec)

    def close(self):
        self.fs.close()


def whole(fn):
    fn.whole = True
    return fn


class Result:
    pass


def feed(p, parts):
    """Write parts (bytes, or seconds to wait) to the process and close."""
    try:
        for x in parts:
            if isinstance(x, (int, float)):
                time.sleep(x)
            else:
                v = memoryview(x)
                while v:
                    n = os.write(p, v)
                    v = v[n:]
    except (BrokenPipeError, ConnectionError):
        pass
    except OSError:
        pass
    finally:
        os.close(p)


def send_nsca(ctx, args=(), stdin=(), conf=None, variant="asan", limit=60, env=None, conf_raw=None, wrapper=(), keep=False,
              how="pipe", preexec=None, conf_mode=None):
    """One run.  stdin: bytes, list of parts, or a file object.  conf: bytes or None."""
    d = ctx.dir("cl")
    r = Result()
    r.dir = d
    a = []
    if conf is not None:
        cfile = os.path.join(d, "send_nsca.cfg")
        with open(cfile, "wb") as f:
            f.write(conf)
        if conf_mode is not None:
            os.chmod(cfile, conf_mode)
        a = ["-c", cfile]
    san = os.path.join(d, "san")
    e = {k: v for k, v in os.environ.items() if not k.startswith(("NSCAMON", "ASAN", "UBSAN", "LSAN", "LISTEN", "NOTIFY", "WATCHDOG"))}
    e["ASAN_OPTIONS"] = f"log_path={san}:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = f"log_path={san}:print_stacktrace=1:exitcode=99:halt_on_error=1"
    e.update(env or {})
    if isinstance(stdin, (bytes, bytearray)):
        stdin = [bytes(stdin)]
    wfd = None
    if hasattr(stdin, "fileno"):
        sin = stdin
    elif how == "file":
        path = os.path.join(d, "stdin")
        with open(path, "wb") as f:
            for x in stdin:
                if isinstance(x, (bytes, bytearray)):
                    f.write(x)
        sin = open(path, "rb")
    elif how == "socket":
        s1, s2 = socket.socketpair()
        sin, wfd = s1, s2.detach()
    else:
        rfd, wfd = os.pipe()
        sin = os.fdopen(rfd, "rb")
    of, ef = os.path.join(d, "out"), os.path.join(d, "err")
    r.t0 = time.time()
    m0 = time.monotonic()
    with open(of, "wb") as o, open(ef, "wb") as er:
        p = ctx.spawn([*wrapper, build.client(variant), *a, *args], stdin=sin, stdout=o, stderr=er, env=e, cwd=d, preexec_fn=preexec)
    sin.close()
    t = None
    if wfd is not None:
        t = threading.Thread(target=feed, args=(wfd, stdin), daemon=True)
        t.start()
    r.timed_out = False
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        r.timed_out = True
        p.kill()
        p.wait()
    ctx.procs.remove(p)
    r.secs = time.monotonic() - m0
    r.t1 = time.time()
    r.rc = p.returncode
    r.out, r.err = open(of, "rb").read(), open(ef, "rb").read()
    r.san = "".join(open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.startswith("san."))
    r.argv = [os.fsdecode(x) for x in (*a, *args)]
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return r


def conf(ident, port, key=b"pw", timeout=30, more=b"", host=b"127.0.0.1"):
    return b'identity = "%s"\npassword = "%s"\nserver = %s\nport = %d\ntimeout = %d\n%s\n' % (ident, key, host, port, timeout, more)


def run(ctx, hub, stdin, args=(), script=None, timeout=30, what="", more=b"", **kw):
    """A run against the hub; sanitizer reports and a hang are violations."""
    i = hub.add(script)
    r = send_nsca(ctx, args, stdin, conf(i, hub.port, timeout=timeout, more=more), **kw)
    r.ident = i
    if r.san:
        raise Violation("sanitizer report: " + first_line(r.san), f"{what} {r.argv}\n{r.san[:6000]}")
    if r.timed_out:
        raise Violation(f"send_nsca did not end {what}", f"{r.argv} {r.err[-600:]!r}", soft=True)
    recs = hub.recs[i]
    if recs:
        wait_for(lambda: all(x.get("done") for x in recs), 10)
    r.recs = recs
    r.events = [e for x in recs for e in x["events"]]
    r.cmds = [e[1] for e in r.events if e[0] == "DATA"]
    r.acked = [e[1] for e in r.events if e[0] == "ACK"]
    r.quit = any(e[0] == "QUITACK" for e in r.events)
    return r


# -- what an input stands for --------------------------------------------------

def esc(b):
    return b.replace(b"\\", b"\\\\").replace(b"\n", b"\\n")


def records(data, sep):
    parts = data.split(sep)
    if parts[-1] == b"":
        parts.pop()
    return parts


def meaning(data, raw=False, delim=b"\t", sep=b"\x17"):
    """-> (commands, malformed?); a command is (needs_stamp, text with newline)."""
    out = []
    for rec in records(data, b"\n" if raw else sep):
        rec = rec.lstrip(b"\r\n")
        if not rec:
            continue
        if raw:
            c = rec.lstrip(b" \t")
            out.append((not c.startswith(b"["), c + b"\n"))
            continue
        if rec.endswith(b"\n"):
            rec = rec[:-1]
        f = rec.split(delim, 3)
        if len(f) < 3:
            return out, True
        kind = b"HOST" if len(f) == 3 else b"SERVICE"
        out.append((True, b"PROCESS_%s_CHECK_RESULT;%s\n" % (kind, b";".join(esc(x) for x in f))))
    return out, False


def same(got, want, t0, t1):
    stamp, text = want
    if stamp:
        m = STAMP.match(got)
        return bool(m) and int(t0) - 1 <= int(m.group(1)) <= int(t1) + 1 and got[m.end():] == text
    return got == text


def verify(r, want, what, ok=True):
    """The commands the server got are the wanted ones."""
    if len(r.cmds) != len(want) or not all(same(g, w, r.t0, r.t1) for g, w in zip(r.cmds, want)):
        for n, (g, w) in enumerate(itertools.zip_longest(r.cmds, want)):
            if g is None or w is None or not same(g, w, r.t0, r.t1):
                break
        raise Violation(f"{what}: command {n} is {(g or b'(none)')[:300]!r}, wanted {w if w is None else (w[0], w[1][:300])!r}",
                        f"{len(r.cmds)} commands, {len(want)} wanted; {r.argv}; exit {r.rc}; {r.err[-400:]!r}; server: {[(x.get('error'), x['events'][:3]) for x in r.recs]!r}"[:3000])
