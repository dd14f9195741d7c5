"""C20: privileges are dropped completely before clients are served.  Oracle: credentials, groups,
capabilities and root of the process, recorded inside the process at every bind(2), listen(2) and
file creation and read from /proc/PID/task/*/status while it serves, against the user database."""
import itertools, random
from nlib import *
from c16 import listeners
import c17

TECHNIQUE = "runtime monitoring: credentials recorded at each bind, listen and file creation and from /proc while serving; failures injected into every privilege-related call"
NOTE = ("The server really changes its user, groups and root directory (in a user namespace of its own, with a group database that gives the user supplementary "
        "groups), started with surplus groups and all capabilities; each privilege-related libc call is made to fail in turn; also by unprivileged callers, "
        "missing users and directories, inherited sockets, daemon mode and reloads.")
RULE = ("one case = one start (or reload) whose credentials were compared at every bind, listen and file creation and in /proc, or one refused start; distinct = "
        "distinct (user, root directory, mode, groups, fault); all are non-trivial")
ASSUMPTIONS = ["NSS is the passwd and group files", "a server in a changed root directory cannot re-execute itself: its reload is not judged"]
INNS = os.path.join(build.H, "inns.py")
USERS = {"nobody": (65534, 65534), "daemon": (1, 1), "www-data": (33, 33), "mail": (8, 8), "list": (38, 38), "sync": (4, 65534), "man": (6, 12)}


class Case:
    def __init__(self, ctx, r, user, chroot, mode, extra, fault=None, start_uid=0, via="ns", creds=None):
        self.creds = creds
        self.ctx, self.r, self.user, self.chroot, self.mode, self.extra, self.fault, self.via = ctx, r, user, chroot, mode, extra, fault, via
        self.d = ctx.dir("priv")
        os.chmod(self.d, 0o777)
        self.jail = os.path.join(self.d, "jail")
        os.mkdir(self.jail)
        base = self.jail if chroot else self.d
        self.base = base
        self.work = os.path.join(base, "work")
        os.mkdir(self.work)
        os.chmod(self.work, 0o777)
        if chroot:
            # daemon(3) wants it.
            os.mkdir(os.path.join(self.jail, "dev"))
            open(os.path.join(self.jail, "dev", "null"), "w").close()
        self.inside = "/work" if chroot else self.work
        uid, gid = USERS.get(user, (0, 0))
        self.uid, self.gid = uid, gid
        self.fifo = Fifo(os.path.join(self.work, "cmd"))
        os.chmod(self.fifo.path, 0o666)
        self.groups = {gid}
        gf = []
        for l in open("/etc/group"):
            w = l.rstrip("\n").split(":")
            if int(w[2]) in extra and user:
                w[3] = user if not w[3] else w[3] + "," + user
            gf.append(":".join(w))
        for g in extra:
            self.groups.add(g)
            if not any(x.split(":")[2] == str(g) for x in gf):
                gf.append(f"g{g}:x:{g}:somebody,{user}")
        self.groupfile = os.path.join(self.d, "group")
        with open(self.groupfile, "w") as f:
            f.write("\n".join(gf) + "\n")
        os.chmod(self.groupfile, 0o644)
        self.pidfile = os.path.join(self.work, "pid")
        self.conf = os.path.join(self.d, "c.cfg")
        self.err = os.path.join(self.d, "err")
        self.sock = None
        self.p = None
        self.pid = None
        self.start_uid = start_uid

    def text(self, port):
        r = self.r
        parts = [f"command_file = {q(self.inside + '/cmd')}", f"temp_directory = {q(self.inside)}", f"pid_file = {q(self.inside + '/pid')}", "log_level = 5"]
        if self.user is not None:
            parts.append(f"user = {q(self.user)}")
        if self.chroot:
            parts.append(f"chroot = {q(self.chroot if isinstance(self.chroot, str) else self.jail)}")
        if self.mode != "systemd":
            parts.append(f'listen = "127.0.0.1:{port}"')
        parts.append('authorize "id" {\n password = "pw"\n commands = ".*"\n}')
        r.shuffle(parts)
        return "\n".join(parts) + "\n"

    def start(self):
        ctx = self.ctx
        for _ in range(5):
            self.port = free_port()
            if self.mode == "systemd":
                self.sock = socket.socket()
                self.sock.bind(("127.0.0.1", 0))
                self.sock.listen(20)
                self.port = self.sock.getsockname()[1]
            with open(self.conf, "w") as f:
                f.write(self.text(self.port))
            env = {k: v for k, v in os.environ.items() if not k.startswith(("NSCAMON", "LISTEN", "NOTIFY", "WATCHDOG"))}
            env["NSCAMON_TEXT"] = "1"
            argv = [build.server("plain"), "-c", self.conf, *(["-F"] if self.mode == "fg" else [])]
            if self.fault:
                # Only for the server, not for what prepares its start.
                argv = ["env", "LD_PRELOAD=" + build.shim("privshim.c"), "NSCA_PRIVFAIL=" + self.fault, *argv]
            if self.via == "ns":
                argv = [sys.executable, INNS, "--group", self.groupfile, "--groups", "0,4,24,27,42,999", "--uid", str(self.start_uid),
                        "--gid", str(self.start_uid),
                        *(["--null", os.path.join(self.jail, "dev", "null")] if self.chroot else []), "--", *argv]
                pre = None
            else:
                su, creds = self.start_uid, self.creds

                def pre():
                    if creds:
                        os.setgroups(creds[0])
                        os.setresgid(*creds[1])
                        os.setresuid(*creds[2])
                        return
                    os.setgroups([0, 4, 24, 27] if su == 0 else [su])
                    os.setresgid(su, su, su)
                    os.setresuid(su, su, su)
            if self.mode == "systemd":
                env["LISTEN_FDS"], env["LISTEN_PID"] = "1", "self"
                s, p2 = self.sock, pre

                def pre():
                    os.dup2(s.fileno(), 3)
                    os.set_inheritable(3, True)
                    if p2:
                        p2()
            if self.start_uid:
                os.chmod(self.d, 0o777)
            with open(self.err, "wb") as ef:
                self.p = ctx.spawn(argv, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env, cwd=self.d, preexec_fn=pre, close_fds=self.mode != "systemd")
            if self.mode == "daemon":
                try:
                    self.p.wait(30)
                except subprocess.TimeoutExpired:
                    raise Violation("the program did not detach", self.out(), soft=True)
                if self.p.returncode == 0:
                    self.pid = wait_for(self.read_pid, 10)
                    c17.DAEMONS.append(self.pid)
                    return self.pid is not None
            else:
                wait_for(lambda: self.p.poll() is not None or self.read_pid() == self.p.pid, 20)
                self.pid = self.p.pid if self.p.poll() is None else None
            if self.p.returncode == 77:
                raise Inconclusive("no user namespace: " + self.out()[-200:])
            if self.p.returncode is not None and "in use" in self.out():
                continue
            return self.p.returncode is None
        return False

    def read_pid(self):
        try:
            with open(self.pidfile) as f:
                return int(f.read())
        except (OSError, ValueError):
            return None

    def mtime(self):
        try:
            return os.stat(self.pidfile).st_mtime_ns
        except OSError:
            return None

    def out(self):
        try:
            return c17.read(self.err).decode("latin-1")
        except OSError:
            return ""

    def events(self):
        out = []
        for m in re.finditer(r"NSCAMON (\w+) uid=(\S+) gid=(\S+) root=(\d+):(\d+) cwd=(\d+):(\d+) pid=(\d+) groups=(\S*) arg=(.*)", self.out()):
            out.append({"what": m[1], "uid": tuple(map(int, m[2].split(","))), "gid": tuple(map(int, m[3].split(","))), "root": (int(m[4]), int(m[5])),
                        "cwd": (int(m[6]), int(m[7])), "groups": {int(x) for x in m[9].split(",") if x}, "arg": m[10]})
        return out

    def dirs(self):
        return {self.ids(x[0]) for x in os.walk(self.jail)}

    def judge(self):
        """A running server has to have exactly the user's rights."""
        what = f"user {self.user} chroot {bool(self.chroot)} {self.mode} groups {sorted(self.extra)} fault {self.fault}"
        ev = self.events()
        ctx = self.ctx
        for e in ev:
            if self.user is not None:
                if set(e["uid"]) != {self.uid} or set(e["gid"]) != {self.gid} or e["groups"] | {self.gid} != self.groups:
                    raise Violation(f"{e['what']} with other rights than the user's", f"{what}: {e}, should be uid {self.uid} gid {self.gid} groups {sorted(self.groups)}")
            if self.chroot:
                if e["root"] != self.ids(self.jail) or e["cwd"] not in self.dirs():
                    raise Violation(f"{e['what']} outside the root directory asked for", f"{what}: {e}, should be {self.ids(self.jail)}")
            ctx.count(f"{e['what']} events judged")
        if self.mode != "systemd" and not any(e["what"] == "listen" for e in ev):
            raise Inconclusive("no listen event seen")
        if not any(e["what"] == "create" for e in ev):
            raise Inconclusive("no file creation seen")
        s = sess(self.port)
        self.status(what)
        s.push(b"[1500000001] X;1\n")
        s.push(b"[1500000001] X;" + b"v" * 9000 + b"\n")
        self.status(what)
        s.quit()
        st = os.stat(self.pidfile)
        if self.user is not None and st.st_uid != self.uid:
            raise Violation("the PID file belongs to another user", f"{what}: {st.st_uid}")
        if not self.fifo or not wait_for(lambda: b"X;1" in self.fifo.snapshot(), 10):
            raise Violation("the command was not delivered", what, soft=True)

    def ids(self, p):
        s = os.stat(p)
        return s.st_dev, s.st_ino

    def status(self, what):
        n = 0
        for t in os.listdir(f"/proc/{self.pid}/task"):
            try:
                s = c17.read(f"/proc/{self.pid}/task/{t}/status").decode()
                root, cwd = os.readlink(f"/proc/{self.pid}/task/{t}/root"), os.readlink(f"/proc/{self.pid}/task/{t}/cwd")
            except FileNotFoundError:
                continue
            except PermissionError:
                root = cwd = None
            f = dict(l.split(":\t", 1) for l in s.splitlines() if ":\t" in l)
            if not f.get("Uid"):
                continue
            if self.user is not None:
                u, g = set(map(int, f["Uid"].split())), set(map(int, f["Gid"].split()))
                gr = set(map(int, f["Groups"].split()))
                if u != {self.uid} or g != {self.gid} or gr | {self.gid} != self.groups:
                    raise Violation("the server runs with other rights than the user's", f"{what}: Uid {f['Uid']!r} Gid {f['Gid']!r} Groups {f['Groups']!r}, "
                                    f"should be uid {self.uid} gid {self.gid} groups {sorted(self.groups)}")
                if self.uid != 0 and (int(f["CapEff"], 16) or int(f["CapPrm"], 16)):
                    raise Violation("the server kept capabilities", f"{what}: {f['CapEff']} {f['CapPrm']}")
            if self.chroot and root is not None:
                if root != self.jail:
                    raise Violation("the server's root directory is not the one asked for", f"{what}: {root}, should be {self.jail}")
                if not (cwd + "/").startswith(self.jail + "/"):
                    raise Violation("the server's working directory is outside its root directory", f"{what}: {cwd}")
            n += 1
        if not n:
            raise Inconclusive("no thread seen")
        self.ctx.count("threads' credentials judged", n)

    def refused(self, why, tolerated=False):
        """A server that did not get what it was asked for must not be there."""
        rc = self.p.returncode
        out = re.sub(r"(?m)^(NSCAMON|PRIVSHIM|inns).*\n", "", self.out())
        if rc is None or rc == 0:
            raise Violation(f"the server runs although {why}", f"status {rc}: {self.out()[-1500:]}")
        if rc < 0:
            raise Violation(f"the server was ended by signal {-rc}", f"{why}: {self.out()[-1500:]}")
        if not out.strip():
            raise Violation(f"no error message although {why}", f"status {rc}")
        for e in self.events():
            if e["what"] in ("listen", "bind"):
                raise Violation(f"the server listened although {why}", f"{e}")
            if e["what"] == "create":
                raise Violation(f"the server created its PID file although {why}", f"{e}")

    def close(self):
        for p in (self.pid, self.p.pid if self.p is not None and self.p.poll() is None else None):
            if p:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
        if self.p is not None:
            self.p.wait(10)
        self.fifo.shutdown()
        if self.sock:
            self.sock.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def served(ctx, k):
    r = random.Random(f"{ctx.seed}/served{k}")
    combos = list(itertools.product([None, *USERS], [False, True], ["fg", "daemon", "systemd"]))
    combos = [c for c in combos if c[0] or c[1]]
    user, chroot, mode = (combos * 20)[(k * 7) % len(combos) + k // len(combos)] if k >= 6 else \
        [("nobody", False, "fg"), ("nobody", True, "fg"), (None, True, "fg"), ("sync", False, "daemon"), ("www-data", True, "systemd"), ("man", True, "daemon")][k]
    extra = set(r.sample([5, 20, 29, 44, 46, 50, 2001, 2002, 2003, 40000], r.choice([0, 1, 2, 5])))
    with Case(ctx, r, user, chroot, mode, extra if user else set()) as c:
        if not c.start():
            if "uid_map" in c.out():
                raise Inconclusive("no user namespace")
            raise Violation("the server does not start with user and chroot", f"{user} {chroot} {mode} {c.p.returncode}: {c.out()[-1500:]}")
        c.judge()
        ctx.case(("served", user, chroot, mode, tuple(sorted(extra))))
        ctx.count("servers with dropped rights")
        # Reload: the rights stay dropped.
        if not chroot and mode in ("fg", "daemon"):
            for i in range(r.choice([1, 2])):
                before = len(c.events())
                t = c.mtime()
                os.kill(c.pid, signal.SIGHUP)
                if mode == "daemon":
                    # It detaches once more, under another PID.
                    ok = wait_for(lambda: c.read_pid() not in (None, c.pid) and listening(c.port), 15)
                    if ok:
                        c.pid = c.read_pid()
                        c17.DAEMONS.append(c.pid)
                else:
                    ok = wait_for(lambda: not c17.alive(c.pid) or c.read_pid() == c.pid and c.mtime() not in (None, t) and listening(c.port), 15)
                if not ok or not c17.alive(c.pid):
                    # Whether it comes back is C17's question; with which rights is this one's.
                    ctx.count("servers that did not come back from a reload")
                    break
                c.judge()
                ctx.count("reloads with dropped rights")
                ctx.case(("reloaded", user, mode, i))


def faulty(ctx, f):
    """Every privilege-related call fails in turn."""
    fn, err, user, chroot, mode = f
    r = random.Random(f"{ctx.seed}/{f}")
    with Case(ctx, r, user, chroot, mode, {20, 2001} if user else set(), fault=f"{fn}:{err}") as c:
        up = c.start()
        hit = "PRIVSHIM" in c.out()
        if up:
            # Either the call does not matter or the rights are right all the same.
            if hit and fn not in ("chdir",):
                ctx.count("failed calls made up for")
            c.judge()
        elif hit:
            c.refused(f"{fn} failed")
            ctx.count("failed calls refused")
        else:
            raise Violation("the server does not start with user and chroot", f"{f} {c.p.returncode}: {c.out()[-1500:]}")
        ctx.case(("fault", f, hit))


def impossible(ctx, kind):
    """What cannot be done is refused."""
    r = random.Random(f"{ctx.seed}/{kind}")
    user, chroot, su, via = {
        "no such user": ("no-such-user", False, 0, "ns"), "empty user": ("", False, 0, "ns"), "no such user in chroot": ("no-such-user", True, 0, "ns"),
        "number": ("65534", False, 0, "ns"),
        "no such root": ("nobody", "/nonexistent/jail", 0, "ns"), "no such root, no user": (None, "/nonexistent/jail", 0, "ns"),
        "root is a file": ("nobody", "/etc/hostname", 0, "ns"), "root is a file, no user": (None, "/etc/hostname", 0, "ns"),
        "unprivileged": ("nobody", False, 1000, "real"), "unprivileged to root": ("root", False, 1000, "real"),
        "unprivileged chroot": (None, True, 1000, "real"), "unprivileged both": ("nobody", True, 1000, "real"),
        "unprivileged in namespace": ("nobody", False, 33, "ns"), "own name, root missing": ("nobody", "/nonexistent/x", 65534, "real"),
    }[kind]
    with Case(ctx, r, user, chroot, r.choice(["fg", "daemon"]), set(), start_uid=su, via=via) as c:
        up = c.start()
        if up and via == "real" and su == 0:
            raise Inconclusive("?")
        if up:
            raise Violation(f"the server runs although it cannot have the rights asked for ({kind})", c.out()[-1500:])
        c.refused(kind)
        ctx.case(("refused", kind))
        ctx.count("impossible settings refused")


def own_user(ctx):
    """Started as the very user: right, or refused; never with other rights."""
    r = random.Random(ctx.seed)
    with Case(ctx, r, "nobody", False, "fg", set(), start_uid=65534, via="real") as c:
        if c.start():
            c.judge()
        else:
            c.refused("?")
        ctx.case("own user")


NEARLY = [([65534], (0, 65534, 65534), (65534,) * 3), ([65534], (4, 65534, 65534), (65534,) * 3), ([65534], (65534, 0, 65534), (65534,) * 3), ([65534], (65534, 4, 4), (65534,) * 3),
          ([65534], (65534, 65534, 0), (65534,) * 3), ([65534, 0], (65534,) * 3, (65534,) * 3), ([0], (65534,) * 3, (65534,) * 3), ([65534, 4242], (65534,) * 3, (65534,) * 3),
          ([1000], (65534,) * 3, (65534,) * 3), ([40000, 65534], (65534,) * 3, (65534,) * 3), ([4, 24, 27], (65534,) * 3, (65534,) * 3), ([999, 1000, 1001], (65534,) * 3, (65534,) * 3),
          ([65534], (65534,) * 3, (0, 65534, 65534)), ([65534], (65534,) * 3, (1000, 65534, 65534)), ([65534], (65534,) * 3, (65534, 1000, 65534)),
          ([65534], (65534,) * 3, (1000, 65534, 0)), ([65534], (0,) * 3, (65534,) * 3), ([], (65534,) * 3, (65534,) * 3), ([65534] * 3, (65534,) * 3, (65534,) * 3)]


def nearly(ctx, k):
    """Started with some of the user's credentials: exactly the user's rights, or no server."""
    r = random.Random(ctx.seed)
    with Case(ctx, r, "nobody", False, "fg", set(), start_uid=65534, via="real", creds=NEARLY[k]) as c:
        if c.start():
            c.judge()
            ctx.count("servers with dropped rights")
        else:
            c.refused(f"it was started with the credentials {NEARLY[k]}")
            ctx.count("impossible settings refused")
        ctx.case(("nearly", k))


def run(ctx):
    c17.adopt()
    build.server("plain"), build.shim("privshim.c")
    if os.getuid() != 0:
        ctx.inconclusive.append("not running as root: nothing can be dropped")
        return
    jobs = [("served", k) for k in range(ctx.n(72, 600))]
    import errno
    F = [("initgroups", errno.EPERM, "nobody", False), ("initgroups", errno.ENOMEM, "www-data", True), ("setgid", errno.EPERM, "nobody", False),
         ("setgid", errno.EINVAL, "nobody", True), ("setuid", errno.EAGAIN, "nobody", False), ("setuid", errno.EPERM, "man", True),
         ("chroot", errno.EPERM, None, True), ("chroot", errno.EACCES, "nobody", True), ("chroot", errno.EIO, "nobody", True), ("chdir", errno.EACCES, None, True),
         ("chdir", errno.EACCES, "nobody", True), ("getpwnam", errno.EIO, "nobody", False), ("getpwnam", 0, "nobody", False), ("getpwnam", errno.ENOENT, "nobody", True),
         ("setgroups", errno.EPERM, "nobody", False), ("setresuid", errno.EAGAIN, "nobody", False), ("setresgid", errno.EPERM, "nobody", False),
         ("setreuid", errno.EAGAIN, "nobody", False), ("seteuid", errno.EPERM, "nobody", True), ("setegid", errno.EPERM, "nobody", True), ("setregid", errno.EPERM, "nobody", False)]
    for i, f in enumerate(F):
        jobs += [("faulty", (*f, m)) for m in ("fg", "systemd", "daemon") if not (f[0] == "chdir" and m == "daemon")]
    jobs += [("impossible", k) for k in ("no such user", "empty user", "no such user in chroot", "number", "no such root", "no such root, no user", "root is a file",
                                         "root is a file, no user", "unprivileged", "unprivileged to root", "unprivileged chroot", "unprivileged both",
                                         "unprivileged in namespace", "own name, root missing")]
    jobs += [("own_user", None)] + [("nearly", k) for k in range(len(NEARLY))]

    def one(j):
        if ctx.left(60, 900) > 0:
            return globals()[j[0]](ctx, *([j[1]] if j[1] is not None else []))
    one.__name__ = "scenario"
    try:
        ctx.pmap(one, jobs, 8)
    finally:
        for p in c17.DAEMONS:
            try:
                if p and b"nsca-ng" in c17.read(f"/proc/{p}/cmdline"):
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
