#!/usr/bin/env python3
"""inns.py [--group FILE] [--passwd FILE] [--null FILE] [--bind FROM:TO] [--groups a,b,c] [--uid N] [--gid N] -- command...: runs the command as (mapped) root of a
user and mount namespace of its own, where it may change its root directory whatever its caller may."""
import ctypes, os, sys

libc = ctypes.CDLL(None, use_errno=True)
NEWUSER, NEWNS, BIND, REC, PRIVATE = 0x10000000, 0x20000, 4096, 16384, 1 << 18


def fail(what):
    sys.stderr.write(f"inns: {what}: {os.strerror(ctypes.get_errno())}\n")
    sys.stderr.flush()
    os._exit(77)


opt, a = {}, sys.argv[1:]
while a and a[0] != "--":
    opt[a[0][2:]] = a[1]
    a = a[2:]
cmd = a[1:]
r1, w1 = os.pipe()
r2, w2 = os.pipe()
me = os.getpid()
if os.fork() == 0:
    os.read(r1, 1)
    ok = b"y"
    try:
        for n in ("uid_map", "gid_map"):
            with open(f"/proc/{me}/{n}", "w") as f:
                f.write("0 0 65536")
    except OSError as e:
        ok = b"n"
    os.write(w2, ok)
    os._exit(0)
if libc.unshare(NEWUSER | NEWNS) != 0:
    fail("unshare")
os.write(w1, b"x")
if os.read(r2, 1) != b"y":
    fail("cannot write the ID maps")
for f in (r1, w1, r2, w2):
    os.close(f)
os.wait()
if libc.mount(b"none", b"/", None, REC | PRIVATE, None) != 0:
    fail("mount")
for n in ("group", "passwd"):
    if n in opt and libc.mount(opt[n].encode(), b"/etc/" + n.encode(), None, BIND, None) != 0:
        fail("bind " + n)
if "null" in opt and libc.mount(b"/dev/null", opt["null"].encode(), None, BIND, None) != 0:
    fail("bind null")
if "bind" in opt and libc.mount(opt["bind"].split(":")[0].encode(), opt["bind"].split(":")[1].encode(), None, BIND, None) != 0:
    fail("bind")
try:
    os.setgroups([int(x) for x in opt.get("groups", "0").split(",") if x])
    g, u = int(opt.get("gid", 0)), int(opt.get("uid", 0))
    os.setresgid(g, g, g)
    os.setresuid(u, u, u)
    if os.environ.get("LISTEN_PID") == "self":
        os.environ["LISTEN_PID"] = str(me)
    os.execvp(cmd[0], cmd)
except OSError as e:
    sys.stderr.write(f"inns: {e}\n")
    os._exit(77)
