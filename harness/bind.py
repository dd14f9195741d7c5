"""Drives the language bindings: an interpreter with the module, told line by line what to call,
and a scripted server that records what it acknowledged."""
import json, random
from nlib import *

PY = r'''
import sys, json, time, os, threading
sys.path.insert(0, sys.argv[1])
import nscang
T = nscang.NSCAngNotifyer
objs = {}
def val(x):
    if isinstance(x, list):
        return bytes.fromhex(x[1]).decode("utf-8" if x[0] == "u" else "latin-1", "surrogateescape")
    return x
def do(q):
    op, k = q["op"], q.get("id")
    a = [val(x) for x in q.get("a", [])]
    kw = {n: val(x) for n, x in q.get("k", {}).items()}
    if op == "new":
        objs[k] = T(*a, **kw)
    elif op == "bare":
        objs[k] = T.__new__(T)
    elif op == "init":
        objs[k].__init__(*a, **kw)
    elif op == "del":
        del objs[k]
    elif op == "fds":
        q["keep"] = keep.extend(os.open("/dev/null", os.O_RDONLY) for _ in range(q["n"]))
    elif op == "closefds":
        while keep:
            os.close(keep.pop())
    elif op == "attr":
        return getattr(objs[k], q["name"])
    else:
        return getattr(objs[k], {"svc": "svc_result", "host": "host_result"}.get(op, op))(*a, **kw)
keep = []
def one(q):
    t0, c0 = time.time(), time.process_time()
    m0 = time.monotonic()
    try:
        v = do(q)
        r = {"ok": True, "val": repr(v)}
    except Exception as e:
        r = {"ok": False, "err": str(e).encode("utf-8", "surrogateescape").hex(), "type": type(e).__name__}
    r.update(t0=t0, t1=time.time(), secs=time.monotonic() - m0, cpu=time.process_time() - c0, n=q.get("n_"))
    return r
for line in sys.stdin:
    q = json.loads(line)
    if "many" in q:
        # several threads, each with calls of its own
        out = [None] * len(q["many"])
        def go(i):
            out[i] = [one(x) for x in q["many"][i]]
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(out))]
        [t.start() for t in ts]; [t.join() for t in ts]
        print(json.dumps(out), flush=True)
    else:
        print(json.dumps(one(q)), flush=True)
objs.clear()
print("END", flush=True)
'''

PL = r'''
use strict; use warnings; no warnings; use JSON::PP; use Time::HiRes qw(time); use POSIX ();
use lib $ARGV[0];
use Net::NSCAng::Client;
$| = 1;
my %o; my @keep;
sub val { my $x = shift; return $x unless ref $x; my $b = pack("H*", $x->[1]); utf8::decode($b) if $x->[0] eq "u"; return $b; }
sub hash { my $h = shift // {}; map { $_ => val($h->{$_}) } sort keys %$h }
sub do_ {
    my $q = shift; my ($op, $k) = ($q->{op}, $q->{id});
    my @a = map { val($_) } @{$q->{a} // []}; my %k = hash($q->{k});
    my @k = $q->{ref} ? ({ %k }) : %k;
    if ($op eq "new") { $o{$k} = Net::NSCAng::Client->new(@a, @k); return }
    if ($op eq "raw") { $o{$k} = Net::NSCAng::Client->_new(@a); return }
    if ($op eq "del") { delete $o{$k}; return }
    if ($op eq "fds") { for (1 .. $q->{n}) { open my $f, "<", "/dev/null" or die "$!"; push @keep, $f } return }
    if ($op eq "closefds") { @keep = (); return }
    if ($op eq "errno") { $! = $q->{n}; return }
    my $o = $o{$k} // die "no object";
    $! = $q->{errno} if defined $q->{errno};
    if ($op eq "svc") { return $o->svc_result(@a, @k) }
    if ($op eq "host") { return $o->host_result(@a, @k) }
    if ($op eq "cmd") { return $o->command(@a) }
    die "op";
}
my $end = 0;
while (my $l = <STDIN>) {
    my $q = decode_json($l);
    my $t0 = time; my @c = times;
    my $r = eval { do_($q); 1 };
    my $e = $@;
    my @d = times;
    my %r = (t0 => $t0, t1 => time, secs => time - $t0, cpu => $d[0] + $d[1] - $c[0] - $c[1]);
    if ($r) { $r{ok} = JSON::PP::true } else { utf8::encode($e) if utf8::is_utf8($e); $r{ok} = JSON::PP::false; $r{err} = unpack("H*", $e); $r{type} = "die" }
    print encode_json(\%r), "\n";
}
%o = ();
print "END\n";
'''


def B(x):
    """A byte string for a driver."""
    return ["b", x.hex()]


def U(x):
    """A text for a driver."""
    return ["u", x.encode("utf-8").hex()]


class Died(Exception):
    pass


class Driver:
    """An interpreter that runs the calls it is given."""

    def __init__(self, ctx, lang, variant="plain", limit=None, env=None):
        self.ctx, self.lang, self.variant = ctx, lang, variant
        self.d = ctx.dir("drv")
        san = os.path.join(self.d, "san")
        e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN", "UBSAN", "LSAN", "NSCAMON", "PYTHON"))}
        if variant == "asan":
            e["LD_PRELOAD"] = build.libasan()
            e["ASAN_OPTIONS"] = f"log_path={san}:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1"
            e["UBSAN_OPTIONS"] = f"log_path={san}:print_stacktrace=1:exitcode=99:halt_on_error=1"
            e["PYTHONMALLOC"] = "malloc"
        e.update(env or {})
        if lang == "python":
            argv = [sys.executable, "-c", PY, build.python_ext(variant)]
        else:
            argv = ["perl", "-e", PL, build.perl_ext(variant)]
        self.errf = os.path.join(self.d, "err")
        if limit:
            argv = ["bash", "-c", f'ulimit -n {limit}; exec "$@"', "bash", *argv]
        with open(self.errf, "wb") as ef:
            self.p = ctx.spawn(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ef, env=e, cwd=self.d,
                               preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL))
        self.buf = b""
        self.log = []

    def san(self):
        return "".join(open(os.path.join(self.d, f), errors="replace").read() for f in sorted(os.listdir(self.d)) if f.startswith("san."))

    def err(self):
        with open(self.errf, "rb") as f:
            return f.read()

    def line(self, limit):
        end = time.monotonic() + limit
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            p = select.poll()
            p.register(self.p.stdout, select.POLLIN)
            if p.poll(left * 1000):
                b = os.read(self.p.stdout.fileno(), 65536)
                if not b:
                    raise Died()
                self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def dead(self, what):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        s = self.san()
        if s:
            raise Violation(f"{self.lang}: sanitizer report: " + first_line(s), f"{what}\ncalls: {self.log[-6:]}\n{s[:5000]}")
        raise Violation(f"{self.lang}: the interpreter died (status {rc})", f"{what}\ncalls: {self.log[-6:]}\n{self.err()[-1500:]!r}")

    def __call__(self, op, id=None, *a, limit=60, what="", ref=False, errno=None, **k):
        q = {"op": op, "id": id, "a": list(a), "k": k}
        if ref:
            q["ref"] = 1
        if errno is not None:
            q["errno"] = errno
        return self.send(q, limit, what)

    def send(self, q, limit=60, what=""):
        self.log.append(short(q))
        try:
            self.p.stdin.write(json.dumps(q).encode() + b"\n")
            self.p.stdin.flush()
            l = self.line(limit)
        except (Died, BrokenPipeError):
            self.dead(what)
        if l is None:
            raise Violation(f"{self.lang}: a call does not return", f"{what} after {limit} s: {self.log[-6:]}", key="hang", soft=True)
        if self.san():
            self.dead(what)
        r = json.loads(l)
        if isinstance(r, dict) and not r["ok"]:
            r["err"] = bytes.fromhex(r["err"])
            # (The loose contexts are those of C28.)
            if not getattr(self.ctx, "judge", True) and b"(null)" in r["err"] and b"(null)".hex() not in json.dumps(q):
                raise Violation(f"{self.lang}: a null pointer was passed for %s", f"{r['err']!r} {short(q)}")
        self.ctx.count(f"{self.lang} calls")
        return r

    def many(self, jobs, limit=120):
        """Several threads with a list of calls each."""
        self.log.append(f"{len(jobs)} threads")
        try:
            self.p.stdin.write(json.dumps({"many": jobs}).encode() + b"\n")
            self.p.stdin.flush()
            l = self.line(limit)
        except (Died, BrokenPipeError):
            self.dead("in threads")
        if l is None:
            raise Violation(f"{self.lang}: threads do not end", f"after {limit} s", key="hang", soft=True)
        if self.san():
            self.dead("in threads")
        return json.loads(l)

    def end(self):
        """An orderly end of the interpreter."""
        try:
            self.p.stdin.close()
            l = self.line(60)
        except (Died, BrokenPipeError):
            self.dead("at the end")
        if l is None:
            raise Violation(f"{self.lang}: the interpreter does not end", f"{self.log[-6:]}", soft=True)
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            raise Violation(f"{self.lang}: the interpreter does not end", f"{self.log[-6:]}", soft=True)
        if rc != 0 or self.san():
            self.dead("at the end")

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def short(q):
    s = json.dumps(q)
    return s if len(s) < 500 else s[:400] + f"...({len(s)})"


class Plan:
    """What the server does with one identity, and what it has seen of it."""

    def __init__(self, key):
        self.key, self.ev, self.conns = key, [], 0
        self.faults = {}       # kind -> [action, ...], used up one by one; kinds: TLS, MOIN, PUSH, DATA, QUIT
        self.lock = threading.Lock()

    def take(self, kind):
        with self.lock:
            f = self.faults.get(kind)
            if f:
                return f.pop(0)
        return None

    def note(self, *e):
        with self.lock:
            self.ev.append((time.time(), *e))

    def since(self, n, kind):
        with self.lock:
            return [e for e in self.ev[n:] if e[1] == kind]


class Abort(Exception):
    pass


class Hub2:
    """A server for many identities, each with its plan."""

    def __init__(self, ctx, version=None, port=0):
        self.ctx, self.plans, self.n, self.down = ctx, {}, 0, False
        self.lock = threading.Lock()
        self.version = version
        self.mixed = []            # identities presented that nobody has
        self.fs = FakeServer(self.handle, keys=self.key, version=version, port=port)
        self.port = self.fs.port

    def key(self, ident):
        p = self.plans.get(ident)
        if p is None:
            self.mixed.append(ident)
            return None
        return p.key

    def add(self, key=b"pw", ident=None):
        with self.lock:
            self.n += 1
            i = ident or b"obj%d" % self.n
        self.plans[i] = Plan(key)
        return i

    def handle(self, ep, rec):
        plan = self.plans[rec["identity"]]
        plan.conns += 1
        plan.note("CONN", rec["n"])

        def act(kind, default, data=None):
            a = plan.take(kind)
            if a is None:
                a = default

            def ack(b):
                if kind == "DATA" and b.split()[:1] == [b"OKAY"]:
                    plan.note("ACK", data)
            if isinstance(a, bytes):
                ack(a)
                ep.send(a)
                return a
            w = a[0]
            if w in ("close", "send+close"):
                if w == "send+close":
                    ack(a[1])
                    ep.send(a[1])
                try:
                    ep.shutdown()
                except Exception:
                    pass
                raise Abort()
            if w == "drop":
                raise Abort()
            if w == "reset":
                ep.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                raise Abort()
            if w == "stall":
                end = time.monotonic() + a[1]
                while time.monotonic() < end and not self.down:
                    time.sleep(0.02)
                raise Abort()
            if w == "late":
                end = time.monotonic() + a[1]
                while time.monotonic() < end and not self.down:
                    time.sleep(0.02)
                ack(a[2])
                ep.send(a[2])
                return a[2]
            if w == "frag":
                ack(b"".join(a[2]))
                for i, b in enumerate(a[2]):
                    if i:
                        time.sleep(a[1])
                    ep.send(b)
                return b"".join(a[2])
            if w == "junk":
                ep.sock.sendall(a[1])
                raise Abort()
            raise RuntimeError(w)
        try:
            if plan.faults.get("TLS"):
                act("TLS", b"")
            while True:
                try:
                    l = ep.readline(120)
                except Closed:
                    plan.note("EOF")
                    return
                w = l.split()
                k = w[0].upper() if w else b""
                plan.note("LINE", l)
                if k == b"MOIN":
                    act("MOIN", b"MOIN 1\r\n")
                elif k == b"PUSH":
                    r = act("PUSH", b"OKAY\r\n")
                    if r.split()[:1] == [b"OKAY"]:
                        d = ep.read(int(w[1]), 120)
                        plan.note("DATA", d)
                        act("DATA", b"OKAY\r\n", d)
                elif k == b"QUIT":
                    act("QUIT", b"OKAY\r\n")
                    try:
                        ep.shutdown()
                        ep.read_to_end(2)
                    except (Closed, TimeoutError, TLSError):
                        pass
                    return
                else:
                    ep.send(b"FAIL what?\r\n")
        except Abort:
            plan.note("ABORT")

    def close(self):
        self.down = True
        self.fs.stop_flag = True
        self.fs.join(2)
        for c in self.fs.conns:
            try:
                if not c.get("done"):
                    c["ep"].sock.shutdown(socket.SHUT_RDWR)
            except (KeyError, OSError):
                pass
        self.fs.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


STAMPED = re.compile(rb"\[(\d+)\] ", re.S)


def result(host, svc, rc, out):
    """The command text of a result, without timestamp and newline."""
    if svc is None:
        return b"PROCESS_HOST_CHECK_RESULT;%s;%d;%s" % (host, rc, out)
    return b"PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s" % (host, svc, rc, out)


def same(got, text, t0, t1, stamp=True):
    if not stamp:
        return got == text
    m = STAMPED.match(got)
    return bool(m) and int(t0) - 1 <= int(m[1]) <= int(t1) + 1 and got[m.end():] == text
