"""C33: the init script.  Oracle: a model of which process the PID file names, against the signals
that the daemon and bystanders receive, the programs that are started, and exit statuses."""
import random, shutil, signal, threading
from nlib import *
from c17 import adopt

TECHNIQUE = "runtime monitoring: signal-recording daemons and bystanders, a recording stand-in for the server and real servers under random histories of init-script actions, compared with a model"
NOTE = ("Random histories of all actions, wrong ones and PID files of every kind (missing, stale, empty, garbage with the numbers of living bystanders in it, "
        "shell syntax, negative and overlong numbers) are run under dash and bash as an unprivileged user in a mount namespace, with home directories with odd names; "
        "every process of that user records each signal it gets.  Some histories use the real server: it has to be listening after start, "
        "gone after stop, serving another configuration after reload and another process after restart.")
RULE = "one case = one action with everything observed compared with the model; distinct = distinct (action, kind of PID file, daemon state, shell); all are non-trivial"
ASSUMPTIONS = ["a PID file that names a living process names the daemon (the script cannot tell)", "the daemon ends within the second that restart waits",
               "the exit statuses of actions that fail are not judged, and neither is whether a stale PID file is removed"]

INNS = os.path.join(build.H, "inns.py")
ACTIONS = ["start", "stop", "restart", "try-restart", "reload", "force-reload", "status"]

# Records every signal that can be caught, one line each; TERM ends it.
DAEMON = """#!/usr/bin/python3 -I
import os, signal, sys
d, pidfile = sys.argv[1], sys.argv[2]
os.setsid()
r, w = os.pipe()
fellow = False
if pidfile:
    fellow = os.fork() == 0         # another process in the daemon's group
if fellow:
    pidfile = ""
me = os.getpid()
log = os.open(os.path.join(d, "sig.%d" % me), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
def got(n, frame):
    os.write(log, b"%d\\n" % n)
    if n == signal.SIGTERM:
        if pidfile:
            try:
                os.unlink(pidfile)
            except OSError:
                pass
        os._exit(0)
for n in range(1, 65):
    try:
        if n not in (signal.SIGCHLD, signal.SIGPIPE):
            signal.signal(n, got)
    except (OSError, ValueError):
        pass
if pidfile:
    os.close(w)
    os.read(r, 1)                   # the other one has its handlers
    with open(pidfile + ".new", "w") as f:
        f.write("%d\\n" % me)
    os.rename(pidfile + ".new", pidfile)
os.write(w if fellow else 1, b"ready\\n")
os.close(r)
null = os.open("/dev/null", os.O_RDWR)
for i in range(3):
    os.dup2(null, i)
while True:
    signal.pause()
"""

NSCANG = """#!/usr/bin/python3 -I
import os, sys, subprocess, getopt
d = %r
with open(os.path.join(d, "calls"), "ab") as f:
    f.write(b"\\0".join(os.fsencode(a) for a in sys.argv[1:]) + b"\\n")
mode = open(os.path.join(d, "mode")).read()
if mode == "fail":
    sys.stderr.write("nsca-ng: cannot\\n")
    sys.exit(1)
if mode.startswith("real"):
    a = mode.split("\\n")
    os.execv(a[1], [a[1], "-c", a[2]] + sys.argv[1:])
o = dict(getopt.getopt(sys.argv[1:], "b:C:c:FhL:l:P:SsV")[0])
p = subprocess.Popen([os.path.join(d, "daemon"), d, o.get("-P", "")], stdout=subprocess.PIPE)
p.stdout.readline()
"""


class Box:
    def __init__(self, ctx, r, uid):
        self.ctx, self.r, self.uid = ctx, r, uid
        self.dir = ctx.dir("init")
        self.home = os.path.join(self.dir, r.choice(["home", "my home", "h$USER", "it's", "h*"]))
        self.bin = os.path.join(self.dir, "bin")
        for d in (self.home, self.bin):
            os.mkdir(d)
        self.pidfile = os.path.join(self.home, ".nsca-ng.pid")
        for n, t in (("bin/nsca-ng", NSCANG % self.dir), ("daemon", DAEMON)):
            program(os.path.join(self.dir, n), t)
        self.script = os.path.join(self.dir, "nsca-ng.init")
        program(self.script, src=os.path.join(build.REPO, "contrib", "nsca-ng.init"))
        self.mode("ok")
        open(os.path.join(self.dir, "calls"), "w").close()
        for d, _, fs in os.walk(self.dir):
            for n in [""] + fs:
                os.chown(os.path.join(d, n), uid, uid)
        os.chmod(self.dir, 0o755)
        self.popen, self.pids, self.over = {}, set(), False
        self.by = [self.bystander() for _ in range(2)]
        threading.Thread(target=self.reaper, daemon=True).start()

    def reaper(self):
        """Daemons are adopted by this program; they must not stay around as zombies."""
        while not self.over:
            for n in os.listdir(self.dir):
                if n.startswith("sig."):
                    self.pids.add(int(n[4:]))
            c = self.content()
            if c and re.fullmatch(rb"[1-9][0-9]{0,8}\n?", c) and self.alive(int(c)):
                self.pids.add(int(c))
            for p in list(self.pids):
                if p in self.popen:
                    self.popen[p].poll()
                else:
                    try:
                        os.waitpid(p, os.WNOHANG)
                    except ChildProcessError:
                        pass
            time.sleep(.02)

    def mode(self, m):
        with open(os.path.join(self.dir, "mode"), "w") as f:
            f.write(m)

    def bystander(self):
        p = subprocess.Popen([os.path.join(self.dir, "daemon"), self.dir, ""], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, user=self.uid, group=self.uid, extra_groups=[], cwd="/")
        self.popen[p.pid] = p
        p.stdout.readline()
        return p

    def signals(self):
        s = []
        for n in os.listdir(self.dir):
            if n.startswith("sig."):
                s += [(int(n[4:]), int(x)) for x in open(os.path.join(self.dir, n)).read().split()]
        return s

    def calls(self):
        return open(os.path.join(self.dir, "calls"), "rb").read().split(b"\n")[:-1]

    def content(self):
        try:
            return open(self.pidfile, "rb").read()
        except OSError:
            return None

    def live(self):
        """The process that the PID file names."""
        c = self.content()
        if c is None or not os.stat(self.pidfile).st_mode & 0o400:
            return None
        c = c.rstrip(b"\n")
        if not re.fullmatch(rb"[1-9][0-9]{0,8}", c):
            return None
        return int(c) if self.alive(int(c)) else None

    def alive(self, pid):
        try:
            with open(f"/proc/{pid}/status") as f:
                t = f.read()
        except OSError:
            return False
        return "State:\tZ" not in t and re.search(r"Uid:\s+(\d+)", t).group(1) == str(self.uid)

    def run(self, shell, args):
        argv = {"dash": ["/bin/dash", self.script], "bash": ["/bin/bash", "--posix", self.script], "exec": [self.script]}[shell] + args
        cmd = [sys.executable, INNS, "--bind", self.bin + ":/usr/local/sbin", "--groups", "", "--uid", str(self.uid), "--gid", str(self.uid), "--"] + argv
        p = self.ctx.spawn(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", env={"HOME": self.home, "PATH": "/nonexistent", "USER": "x"})
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation("the init script does not end", f"{args}", soft=True)
        if p.returncode == 77 and b"inns:" in err:
            raise Inconclusive(f"no namespace of one's own: {err!r}")
        return p.returncode, out, err

    def close(self):
        self.over = True
        for _ in range(50):
            n = 0
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        if os.stat("/proc/" + d).st_uid == self.uid and "State:\tZ" not in open(f"/proc/{d}/status").read():
                            os.kill(int(d), signal.SIGKILL)
                            n += 1
                    except OSError:
                        pass
            if not n:
                break
            time.sleep(.02)
        for b in self.by:
            b.wait()


def garbage(r, by, dead):
    b = by.pid
    kind, c = r.choice([
        ("none", None), ("none", None), ("empty", ""), ("newline", "\n"), ("dead", f"{dead}\n"), ("dead", f"{dead}"), ("overlong", "99999999999999999999\n"), ("overlong", f"{2 ** 32 + b}\n"),
        ("overlong", f"{2 ** 64 + b}\n"), ("zero", "0\n"), ("zero", "00\n"), ("negative", "-1\n"), ("negative", f"-{b}\n"), ("plus", f"+{b}\n"), ("text", "running\n"), ("text", f"{b}x\n"), ("text", f"x{b}\n"),
        ("text", f"pid={b}\n"), ("lines", f"{b}\n{b}\n"), ("lines", f"{b}\n\nx\n"), ("lines", f"\n{b}\n"), ("blank", f" {b}\n"), ("blank", f"{b} \n"), ("blank", f"\t{b}\n"),
        ("two", f"{b} {b}\n"), ("two", f"{b} x\n"), ("shell", f"$(kill {b})\n"), ("shell", f"`kill {b}`\n"), ("shell", f"; kill {b}\n"), ("shell", f"{b}; kill {b}\n"),
        ("shell", f"{b} || kill {b}\n"), ("glob", "*\n"), ("option", f"-9 {b}\n"), ("option", f"-s KILL {b}\n"), ("expr", "( \n"), ("expr", ") = 1\n"), ("expr", "length\n"), ("quote", "'\n"), ("hex", hex(b) + "\n"),
        ("float", f"{b}.0\n"), ("unreadable", f"{b}\n")])
    return kind, c


def history(ctx, k):
    r = random.Random(f"{ctx.seed}/c33/{k}")
    uid = 20000 + (os.getpid() * 131 + k) % 40000
    box = Box(ctx, r, uid)
    try:
        for step in range(r.choice([6, 10, 14])):
            one_step(ctx, r, box, step)
    finally:
        box.close()


def one_step(ctx, r, box, step):
    kind = "as it is"
    if box.live() is None or r.random() < .1:
        by = r.choice(box.by)
        dead = subprocess.Popen(["/bin/true"])
        dead.wait()
        old = box.live()
        if old and old not in [b.pid for b in box.by]:
            os.kill(old, signal.SIGKILL)      # killed hard: the file stays behind
            wait_for(lambda: not box.alive(old), 10)
            kind = "left over"
        elif r.random() < .7:
            kind, c = garbage(r, by, dead.pid)
            if r.random() < .2 and c is not None:
                kind, c = "bystander", f"{by.pid}" + r.choice(["\n", ""])
            try:
                os.unlink(box.pidfile)
            except OSError:
                pass
            if c is not None:
                with open(box.pidfile, "w") as f:
                    f.write(c)
                os.chown(box.pidfile, box.uid, box.uid)
            if kind == "unreadable":
                os.chmod(box.pidfile, 0)
    live = box.live()
    before, calls, content = box.signals(), box.calls(), box.content()
    mode = r.choice(["ok", "ok", "ok", "fail"])
    box.mode(mode)
    wrong = r.random() < .1
    args = r.choice([["begin"], [], ["--help"], ["Start"], ["stopp"], ["xstop"], ["*"], [""], ["-9"]]) if wrong else [r.choice(ACTIONS + ["start", "status", "stop"])]
    act = "wrong" if wrong else args[0]
    shell = r.choice(["dash", "dash", "bash", "exec"])
    rc, out, err = box.run(shell, args)
    T, H = int(signal.SIGTERM), int(signal.SIGHUP)
    sig, started = [], 0
    if act == "start" and not live or act == "restart" or act == "try-restart" and live:
        started = 1
    if live and act in ("stop", "restart", "try-restart"):
        sig = [(live, T)]
    if live and act in ("reload", "force-reload"):
        sig = [(live, H)]
    what = f"{act} {args} under {shell}, PID file {content!r} ({kind}), living daemon {live}, bystanders {[b.pid for b in box.by]}, nsca-ng {mode}\nstatus {rc}\n{out!r}\n{err!r}\nhome {box.home}"

    def new():
        return sorted(set(enumerate_new(before, box.signals())))
    wait_for(lambda: len(new()) >= len(sig), 3)
    time.sleep(.03)
    got = new()
    if [g[:2] for g in got] != sorted(sig):
        raise Violation("init script: other signals than the action stands for", f"wanted {sig}, got {got}\n{what}")
    for b in list(box.by):
        if b.poll() is not None:
            if (b.pid, T) not in sig:
                raise Violation("init script: ended another process than the one its PID file names", what)
            box.by.remove(b)
            box.by.append(box.bystander())
    c = box.calls()[len(calls):]
    if len(c) != started:
        raise Violation(f"init script: nsca-ng was started {len(c)} times instead of {started}", f"{c}\n{what}", soft=act.endswith("restart"))
    for a in c:
        a = [os.fsdecode(x) for x in a.split(b"\0")]
        if "".join(a) != "-P" + box.pidfile:
            raise Violation("init script: nsca-ng was started with other arguments", f"{a}\n{what}")
    now_live = box.live()
    if started and mode == "ok" and not now_live:
        raise Violation("init script: no PID file of the daemon after start", what)
    if started and mode == "fail" and b"done" in out.split(b"Starting")[-1]:
        raise Violation("init script: claims success though nsca-ng failed", what)
    if started and mode == "ok" and (rc != 0 or b"failed" in out):
        raise Violation("init script: claims failure though nsca-ng was started", what)
    if live and not sig and not started and box.content() != content:
        raise Violation("init script: the PID file of a running daemon was changed", f"now {box.content()!r}\n{what}")
    if act == "status":
        if rc != (0 if live else 3):
            raise Violation("init script: wrong exit status of status", what)
    elif act == "wrong":
        if rc != 2 or not err:
            raise Violation("init script: wrong usage was not refused", what)
    elif rc != 0 and not (started and mode == "fail"):
        raise Violation("init script: an action that succeeded has a failure's exit status", what)
    if os.path.exists(os.path.join(box.home, "MARK")):
        raise Violation("init script: part of the PID file was executed", what)
    ctx.count(f"action {act}")
    ctx.count("signals seen", len(got))
    ctx.case((act, kind, bool(live), shell, mode))


def enumerate_new(before, after):
    """Signals that are in after but not in before, with duplicates told apart."""
    left = list(before)
    res, n = [], {}
    for s in after:
        if s in left:
            left.remove(s)
        else:
            n[s] = n.get(s, 0) + 1
            res.append((*s, n[s]))
    return res


def real(ctx, k):
    """The same with the real server."""
    r = random.Random(f"{ctx.seed}/c33r/{k}")
    uid = 20000 + (os.getpid() * 131 + 39000 + k) % 40000
    box = Box(ctx, r, uid)
    try:
        exe = os.path.join(box.dir, "real-nsca-ng")
        program(exe, src=build.server("plain"))
        conf, cmd = os.path.join(box.dir, "c.cfg"), os.path.join(box.home, "cmd")
        fifo = Fifo(cmd)
        os.chown(cmd, uid, uid)

        def write(port, more=""):
            with open(conf, "w") as f:
                f.write(f'command_file = {q(cmd)}\ntemp_directory = {q(box.home)}\nlisten = "127.0.0.1:{port}"\nauthorize "id" {{\n password = "pw"\n commands = ".*"\n}}\n{more}')
        box.mode(f"real\n{exe}\n{conf}")
        shell = r.choice(["dash", "bash", "exec"])
        pid = port = None
        want = 0
        seq = ["status", "start", "status", "start"] + r.choices(["restart", "reload", "try-restart", "stop", "start", "force-reload", "status"], k=6) + ["stop", "status", "stop", "try-restart"]
        for act in seq:
            if act in ("start", "restart", "try-restart", "reload", "force-reload"):
                old = port
                new = free_port() if pid is None or r.random() < .5 or "start" in act else port
                write(new)
            rc, out, err = box.run(shell, [act])
            what = f"real server, {act} in {seq} under {shell}, daemon {pid}\nstatus {rc}\n{out!r}\n{err!r}"
            if act == "status":
                if rc != (0 if pid else 3):
                    raise Violation("init script: wrong exit status of status", what)
            elif act == "stop" and pid:
                if not wait_for(lambda: not box.alive(pid), 10):
                    raise Violation("init script: the server still runs after stop", what, soft=True)
                pid = None
            elif act in ("reload", "force-reload") and pid:
                # (A daemon has another PID after a reload.)
                if not wait_for(lambda: listening(new) and box.live() not in (None, pid), 10):
                    raise Violation("init script: the server has not reloaded", what, soft=True)
                pid, port = box.live(), new
            elif act == "start" and not pid or act == "restart" or act == "try-restart" and pid:
                if not wait_for(lambda: listening(new) and box.live() not in (None, pid), 10):
                    raise Violation("init script: no server after start", what, soft=True)
                if pid and box.alive(pid):
                    raise Violation("init script: the old server still runs after restart", what, soft=True)
                pid, port = box.live(), new
            elif act == "start" and pid:
                if listening(new):
                    raise Violation("init script: a second server was started", what)
            if (box.live() or None) != pid:
                raise Violation("init script: another process runs than should", f"{box.live()}\n{what}", soft=True)
            if pid:
                s = sess(port)
                if s.cmd(b"NOOP") != b"OKAY\r\n":
                    raise Violation("init script: the server doesn't serve", what)
                s.close()
            ctx.case(("real", act, bool(pid), shell))
            ctx.count(f"real server: {act}")
    finally:
        box.close()


def run(ctx):
    if not os.path.exists(os.path.join(build.REPO, "contrib", "nsca-ng.init")):
        raise Violation("there is no init script")
    adopt()
    build.server("plain")
    ctx.pmap(lambda j: j[0](ctx, j[1]), [(real, k) for k in range(ctx.n(6, 60))] + [(history, k) for k in range(ctx.n(64, 3000))])
