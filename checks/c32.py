"""C32: the contributed scripts.  Oracle: what a stand-in send_nsca is given (arguments, standard
input) against what the script's arguments stand for; exit statuses; a real server's command file."""
import getopt, os, random, re, stat, subprocess, time
from nlib import *
import cl

TECHNIQUE = "runtime monitoring of the real scripts: recorded arguments and input of a stand-in send_nsca compared with the meaning of generated argument lists; fault injection by failing stand-ins; end to end through the real client and server"
NOTE = ("The scripts run under dash and bash (POSIX mode) with argument lists of spaces, quotes, backslashes, percent signs, expansions, globs and non-ASCII characters, "
        "each option present or not, in any order, SEND_NSCA_ARGS and -c, hosts with long names, users with odd full names.  send_nsca is a stand-in that records its arguments and "
        "input and ends as told (any status, a signal, without reading, missing); wrapped plugins write generated output, to both descriptors, "
        "and end with any status or by a signal, or are missing.  Some cases go through the real send_nsca and server to the command file.  debug_server runs with a stand-in for openssl, whose arguments are compared with generated configuration files and options.")
RULE = "one case = one run of a script; distinct = distinct (script, shell, options given, character classes, outcome); all are non-trivial"
ASSUMPTIONS = ["newlines and ETB characters in arguments and output, and semicolons outside comments, are not used: there is no way to submit them",
               "GNU date(1) decides what a date stands for"]

STANDIN = """#!/usr/bin/python3 -I
import os, sys, signal
d = os.environ["C32_DIR"]
mode = os.environ.get("C32_MODE", "0")
n = len([f for f in os.listdir(d) if f.startswith("call")])
with open(os.path.join(d, "call%d.args" % n), "wb") as f:
    f.write(b"\\0".join(os.fsencode(a) for a in sys.argv[1:]))
if mode != "early":
    data = sys.stdin.buffer.read()
    with open(os.path.join(d, "in%d" % n), "wb") as f:
        f.write(data)
if mode.startswith("kill"):
    os.kill(os.getpid(), int(mode[4:]))
sys.exit(7 if mode == "early" else int(mode))
"""

HOSTNAME = """#!/bin/sh
name=%s
case ${1-} in
-s) echo "${name%%%%.*}" ;;
-f|'') echo "$name" ;;
*) exit 1 ;;
esac
"""

GETENT = """#!/usr/bin/python3 -I
import os, sys
if sys.argv[1:] == ["passwd", os.environ["USER"]]:
    sys.stdout.buffer.write(os.environb[b"USER"] + b":x:1000:1000:" + os.environb[b"C32_GECOS"] + b":/home/u:/bin/sh\\n")
else:
    sys.exit(2)
"""

PLUGIN = """#!/usr/bin/python3 -I
import os, sys
d = os.path.dirname(os.path.realpath(__file__))
with open(os.path.join(d, "plugin.args"), "wb") as f:
    f.write(b"\\0".join(os.fsencode(a) for a in sys.argv))
sys.stdout.buffer.write(open(os.path.join(d, "plugin.out"), "rb").read())
sys.stdout.buffer.flush()
sys.stderr.write("on standard error\\n")
sys.stderr.flush()
end = open(os.path.join(d, "plugin.end")).read()
if end.startswith("kill"):
    os.kill(os.getpid(), int(end[4:]))
sys.exit(int(end))
"""

PIECES = {
    "plain": ["rebooted", "disk", "web1", "HTTP", "a", "0", "x" * 200],
    "space": [" ", "  ", " two words "],
    "backslash": ["C:\\new\\table", "\\", "\\\\", "\\n", "\\c", "\\t", "\\0101", "\\x41", "\\a", "end\\"],
    "percent": ["%", "%s", "%d 100%", "%n", "%b", "50%"],
    "quote": ["'", '"', "it's", '"quoted"'],
    "expansion": ["$HOME", "$(touch MARK)", "`touch MARK`", "${USER}", "$$", "$1"],
    "glob": ["*", "/*", "?", "[a-z]*", "~", "~root"],
    "shell": ["&", "|", "<x", ">MARK", "(x)", "#", "!", "{a,b}"],
    "dash": ["-", "--", "-n", "-e"],
    "8bit": ["é", "\udcff\udcfe", "日本"],
}


def odd(r, more=(), least=1):
    """A string and the classes of characters in it."""
    kinds = r.sample(sorted(PIECES), r.choice([1, 1, 1, 2, 3]))
    s = "".join(r.choice(PIECES[k]) for k in kinds for _ in range(r.choice([1, 1, 2])))
    for m in more:
        if r.random() < .3:
            s, kinds = s + m + "x", kinds + [m]
    return s, tuple(sorted(kinds))


def word(r):
    if r.random() < .08:
        return "", "empty"      # stands for the default, like no such option
    s, k = odd(r)
    return s, k


def stray(r):
    """Variables of the same names as the scripts' own are no options."""
    if r.random() < .6:
        return {}
    return {n: r.choice(["stray", "/stray path", "2030-01-01"]) for n in r.sample(["host", "service", "comment", "start", "end", "config_file", "author", "state", "output", "option", "send_nsca_args"], 6)}


class Box:
    def __init__(self, ctx, r, mode="0", real=None):
        self.dir = ctx.dir("scr")
        self.bin = os.path.join(self.dir, "bin")
        self.rec = os.path.join(self.dir, "rec")
        self.cwd = os.path.join(self.dir, "cwd")
        for d in (self.bin, self.rec, self.cwd):
            os.mkdir(d)
        for f in ("aaa", "web1"):
            open(os.path.join(self.cwd, f), "w").close()
        self.name = r.choice(["www.example.org", "Mail", "DB-1.Example.ORG", "localhost"])
        self.gecos = r.choice(["Holger Weiss", "Jo\\new", "O'Neill", "x % y %s", "", "Zoé,Room 1,,", "a\\c b", "$(touch MARK)", "*"])
        self.tool("hostname", HOSTNAME % self.name)
        self.tool("getent", GETENT)
        if mode == "missing":
            pass
        elif real:
            # The client as built, given the same arguments.
            self.tool("send_nsca", f"#!/bin/sh\nexec {real} \"$@\"\n")
        else:
            self.tool("send_nsca", STANDIN)
        self.env = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.dir, "USER": "someone", "C32_DIR": self.rec, "C32_MODE": mode,
                    "C32_GECOS": self.gecos, "LC_ALL": r.choice(["C", "C.UTF-8"]), **stray(r), "TZ": r.choice(["UTC", "Europe/Berlin", "America/New_York"]), "MARK": "x"}

    def tool(self, name, text):
        return program(os.path.join(self.bin, name), text)

    def run(self, ctx, shell, script, args, env={}):
        path = os.path.join(build.REPO, "contrib", script)
        argv = {"dash": ["/bin/dash", path], "bash": ["/bin/bash", "--posix", path], "exec": [path]}[shell] + args
        p = ctx.spawn(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**self.env, **env}, cwd=self.cwd)
        try:
            self.out, self.err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation(f"{script} does not end", f"{argv}", soft=True)
        self.rc = p.returncode
        names = sorted(f for f in os.listdir(self.rec) if f.startswith("call"))
        self.calls = []
        for i in range(len(names)):
            a = open(os.path.join(self.rec, f"call{i}.args"), "rb").read()
            inp = os.path.join(self.rec, f"in{i}")
            self.calls.append(([os.fsdecode(x) for x in a.split(b"\0")] if a else [], open(inp, "rb").read() if os.path.exists(inp) else None))
        if os.path.exists(os.path.join(self.cwd, "MARK")):
            raise Violation(f"{script} executes part of an argument", f"{argv} {self.env}")
        return self

    def says(self, argv):
        return f"{argv} env {self.env}\nstatus {self.rc}\ncalls {self.calls}\n{self.out[-1500:]!r}\n{self.err[-1500:]!r}"


def options(argv):
    o, rest = getopt.getopt(argv, "Cc:D:d:e:H:ho:p:SstVv")
    return sorted(o), rest


def common(r):
    """-c and SEND_NSCA_ARGS: arguments, environment, options expected, classes."""
    args, env, want, kinds = [], {}, [], []
    if r.random() < .6:
        f, k = odd(r)
        f = r.choice(["/etc/send_nsca.cfg", "/x/" + f, f])
        if not f.startswith("-"):
            args += [["-c", f]] if r.random() < .7 else [["-c" + f]]
            want.append(("-c", f))
            kinds += ["-c", k if f.endswith(k) else ""]
    if r.random() < .5:
        e, w = r.choice([("-v", [("-v", "")]), ("-H monitor -p 5668", [("-H", "monitor"), ("-p", "5668")]), ("  -o 20 ", [("-o", "20")]), ("", []), ("-v -v -D 3", [("-v", ""), ("-v", ""), ("-D", "3")])])
        env["SEND_NSCA_ARGS"] = e
        want += w
        kinds.append("env")
    return args, env, want, kinds


MODES = ["0"] * 9 + ["1", "2", "3", "42", "255", "early", "missing", "kill9", "kill15", "kill11"]


def status(box, mode, what):
    """What has to come of a call of send_nsca that ended as told."""
    want = {"early": 7, "missing": 127, "kill9": 137, "kill15": 143, "kill11": 139}.get(mode)
    want = int(mode) if want is None else want
    if mode == "0" and box.rc != 0:
        raise Violation("a script fails though send_nsca succeeded", what)
    if mode != "0" and box.rc == 0:
        raise Violation("a script succeeds though send_nsca failed", what)
    if box.rc != want and mode != "missing":
        raise Violation("a script doesn't pass on send_nsca's exit status", f"wanted {want}\n{what}")


def shape(script, raw, box, argv, opts):
    what = f"{script} " + box.says(argv)
    if box.env["C32_MODE"] == "missing":
        return None
    if len(box.calls) != 1:
        raise Violation(f"{script}: send_nsca was called {len(box.calls)} times instead of once", what)
    a, inp = box.calls[0]
    try:
        o, rest = options(a)
    except getopt.GetoptError:
        raise Violation(f"{script}: wrong arguments for send_nsca", what)
    if rest or o != sorted(opts + ([("-C", "")] if raw else [])):
        raise Violation(f"{script}: other arguments for send_nsca than asked for", f"wanted {opts}\n{what}")
    return inp


def mix(r, parts):
    r.shuffle(parts)
    return [x for p in parts for x in p] + (["--"] if r.random() < .1 else [])


DATES = ["now", "tomorrow", "next monday", "2027-03-04 05:06:07", "@1900000000", "+2hours", "+ 90 minutes", "2 days ago", "2028-02-29", "12:30 tomorrow", "1 Jan 2030 12:00 UTC", "yesterday 23:59",
         "+1 week 2 days", "TZ=\"Asia/Tokyo\" 2027-01-01 09:00", "20270101", "last friday"]
BAD_DATES = ["no date", "2027-13-01", "32 January", "25:61", "tomorrowish", "'"]


def stamp(box, text):
    p = subprocess.run(["/usr/bin/date", "-d", text, "+%s"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"TZ": box.env["TZ"], "LC_ALL": "C"})
    return int(p.stdout) if p.returncode == 0 else None


def command(ctx, k, script):
    r = random.Random(f"{ctx.seed}/c32/{script}/{k}")
    shell = r.choice(["dash", "dash", "bash", "exec"])
    mode = r.choice(MODES)
    box = Box(ctx, r, mode)
    parts, env, opts, kinds = common(r)
    kinds = list(kinds)
    host = service = comment = start = end = None
    if script.endswith("notifications"):
        argv = mix(r, parts)
    else:
        if r.random() < .7:
            host, kk = word(r)
            parts.append(["-H", host])
            kinds += ["H", kk]
        if r.random() < .6:
            service, kk = word(r)
            parts.append(["-S", service])
            kinds += ["S", kk]
        if r.random() < .8:
            comment, kk = odd(r, [";", "|", ","]) if r.random() < .85 else ("", "empty")
            parts.append(["-C", comment])
            kinds += ["C", kk]
        if script == "downtime":
            if r.random() < .6:
                start = r.choice(DATES + [""])
                parts.append(["-s", start])
            if r.random() < .6:
                end = r.choice(DATES + [""])
                parts.append(["-e", end])
            kinds += [start, end]
        argv = mix(r, parts)
    t0 = [stamp(box, start or "now"), stamp(box, end or "+2 hours")]
    box.run(ctx, shell, script, argv, env)
    t1 = [stamp(box, start or "now"), stamp(box, end or "+2 hours")]
    what = f"{script} {shell} " + box.says(argv)
    inp = shape(script, True, box, argv, opts)
    status(box, mode, what)
    short = box.name.split(".")[0]
    if mode not in ("early", "missing"):
        if script.endswith("notifications"):
            want = [script.upper().encode()]
            got = inp.split(b"\n")
        else:
            obj = [host or short] + ([service] if service else [])
            kind = "SVC" if service else "HOST"
            tail = [os.fsdecode(os.fsencode(box.gecos)), comment or f"Submitted by send_nsca@{short}"]
            line, rest = (inp.split(b"\n", 1) + [None])[:2]
            if script == "acknowledge":
                want = [os.fsencode(";".join([f"ACKNOWLEDGE_{kind}_PROBLEM"] + obj + ["1", "0", "1"] + tail))]
                got = inp.split(b"\n")
            else:
                f = os.fsdecode(inp).split(";")
                at = 1 + len(obj)
                try:
                    s, e = int(f[at]), int(f[at + 1])
                except (ValueError, IndexError):
                    raise Violation("downtime: no start and end time", what)
                if not t0[0] <= s <= t1[0] or not t0[1] <= e <= t1[1]:
                    raise Violation("downtime: other start or end time than asked for", f"wanted {t0} to {t1}, got {s} {e}\n{what}")
                want = [os.fsencode(";".join([f"SCHEDULE_{kind}_DOWNTIME"] + obj + [str(s), str(e), "1", "0", "0"] + tail))]
                got = inp.split(b"\n")
        if got != want + [b""]:
            raise Violation(f"{script}: submits something else than asked for", f"wanted {want}\n     got {inp!r}\n{what}")
        ctx.count(f"{script}: commands compared")
    ctx.count(f"outcome of send_nsca: {'success' if mode == '0' else 'failure'}")
    ctx.case((script, shell, mode, str(kinds)))


def usage(ctx, k, script):
    """Wrong usage submits nothing."""
    r = random.Random(f"{ctx.seed}/c32u/{script}/{k}")
    shell = r.choice(["dash", "bash", "exec"])
    box = Box(ctx, r, "0")
    env = {}
    valid = {"acknowledge": "CcHS", "downtime": "CcHSes", "invoke_check": "cHS"}.get(script, "c")
    good = [["-" + o, {"e": "tomorrow", "s": "now"}.get(o, "value")] for o in valid if r.random() < .5]
    plugin = [[box.tool("check_x", "#!/bin/sh\ntouch plugin_ran\necho fine\n")]] if script == "invoke_check" else []
    kind = r.choice(["unknown", "help", "no argument", "extra"] + (["date"] if script == "downtime" else []) + (["no date"] if script == "downtime" else []))
    r.shuffle(good)
    flat = [x for g in good for x in g]
    if kind == "unknown":
        bad = [r.choice(["-x", "-V", "-9", "-?", "-\\", "-é", "-C x" if "C" not in valid else "-Z"])]
        argv = flat + bad + sum(plugin, [])
    elif kind == "help":
        argv = flat + ["-h"] + (sum(plugin, []) if r.random() < .5 else [])
    elif kind == "no argument":
        argv = flat + ["-" + r.choice(valid)]
    elif kind == "extra":
        argv = flat + (["--"] if r.random() < .3 else []) + ([r.choice(["extra", "-", "", "a b"])] if script != "invoke_check" else [])
    elif kind == "date":
        argv = [x for g in good if g[0] not in ("-s", "-e") for x in g] + [r.choice(["-s", "-e"]), r.choice(BAD_DATES)]
    else:
        box.tool("date", r.choice(["#!/bin/sh\nexit 1\n", "#!/bin/sh\necho 'usage: date'\nexit 1\n", "#!/bin/sh\necho 'illegal time format' >&2\nexit 1\n"]))
        argv = flat
    box.run(ctx, shell, script, argv, env)
    what = f"{script} {shell} {kind} " + box.says(argv)
    if box.calls:
        raise Violation(f"{script}: submits something in spite of wrong usage ({kind})", what)
    if os.path.exists(os.path.join(box.cwd, "plugin_ran")):
        raise Violation(f"{script}: runs the plugin in spite of wrong usage", what)
    if kind == "help":
        if b"sage" not in box.out + box.err:
            raise Violation(f"{script} -h doesn't print usage information", what)
    elif box.rc == 0:
        raise Violation(f"{script}: succeeds in spite of wrong usage ({kind})", what)
    elif not box.err:
        raise Violation(f"{script}: no message on wrong usage ({kind})", what)
    ctx.count(f"wrong usage: {kind}")
    ctx.case((script, shell, kind, str(argv)))


OUTPUTS = [b"OK - fine", b"", b"DISK OK | /=10%;80;90", b"C:\\new\\temp \\c rest", b"two\nlines\n| p=1", b"100% %s %d", b"it's \"quoted\" $HOME `id` *", b"\xff\xe9 latin", b" leading and trailing ", b"a\ttab\tand more",
           b"-n", b"-e x", b"\\", b"\\0101\\x41\\\\", b"x" * 9000, b"*", b"$(touch MARK)", b"back\\slash\\\nand newline\\n"]
PNAMES = ["check_disk", "check_http", "check", "my_check_ssh", "check_by-ssh", "plugin", "Check_Load", "check.sh", "a_b_c1"]


def plugin(ctx, k):
    r = random.Random(f"{ctx.seed}/c32p/{k}")
    shell = r.choice(["dash", "dash", "bash", "exec"])
    mode = r.choice(MODES)
    box = Box(ctx, r, mode)
    parts, env, opts, kinds = common(r)
    host = service = None
    if r.random() < .5:
        host, kk = word(r)
        parts.append(["-H", host])
        kinds += ["H", kk]
    if r.random() < .5:
        service, kk = word(r)
        parts.append(["-S", service])
        kinds += ["S", kk]
    name = r.choice(PNAMES)
    out = r.choice(OUTPUTS) + r.choice([b"", b"\n", b"\n", b"\n\n"])
    end = r.choice(["0", "1", "2", "3", "0", "1", "2", "3", "4", "255", "127", "kill9", "kill15", "absent"])
    where = r.choice(["path", "abs", "dir"])
    d = box.bin if where == "path" else os.path.join(box.dir, "plug in_s.d")
    if d != box.bin:
        os.mkdir(d)
    if end != "absent":
        program(os.path.join(d, name), PLUGIN)
        with open(os.path.join(d, "plugin.out"), "wb") as f:
            f.write(out)
        with open(os.path.join(d, "plugin.end"), "w") as f:
            f.write(end)
    pargs = [r.choice([word(r)[0], "-w", "20%", "-c", "-H", "-S", "-h", "-x", "", "a b"]) for _ in range(r.choice([0, 0, 1, 2, 5]))]
    prog = name if where == "path" else os.path.join(d, name)
    argv = mix(r, parts) + [prog] + pargs
    box.run(ctx, shell, "invoke_check", argv, env)
    what = f"invoke_check {shell} plugin end {end} output {out!r} " + box.says(argv)
    if end != "absent":
        try:
            got = open(os.path.join(d, "plugin.args"), "rb").read().split(b"\0")
        except FileNotFoundError:
            raise Violation("invoke_check doesn't run the plugin", what)
        if got[1:] != [os.fsencode(x) for x in pargs]:
            raise Violation("invoke_check gives the plugin other arguments", f"got {got}\n{what}")
    if end not in "0123":
        if box.calls or box.rc == 0:
            raise Violation("invoke_check submits something though the plugin didn't give a result", what)
        ctx.count("plugins without a result")
        ctx.case(("invoke_check", shell, mode, end, str(kinds)))
        return
    inp = shape("invoke_check", False, box, argv, opts)
    status(box, mode, what)
    if mode not in ("early", "missing"):
        h = host or box.name.split(".")[0].lower()
        s = service or re.sub(".*[_/]", "", prog, flags=re.S).upper()
        want = b"\t".join([os.fsencode(h), os.fsencode(s), end.encode(), out.rstrip(b"\n")]) + b"\n"
        if inp != want:
            raise Violation("invoke_check: submits something else than the plugin's result", f"wanted {want!r}\n     got {inp!r}\n{what}"[:6000])
        ctx.count("invoke_check: results compared")
    ctx.count(f"outcome of send_nsca: {'success' if mode == '0' else 'failure'}")
    ctx.case(("invoke_check", shell, mode, end, where, str(kinds), out[:20]))


def whole(ctx, k):
    """From the script to the command file."""
    r = random.Random(f"{ctx.seed}/c32e/{k}")
    with Server(ctx, opts="max_command_size = 20000", auth='authorize "*" {\n password = "pw"\n commands = ".*"\n}\n') as srv:
        want, n = [], 0
        for script in ["acknowledge", "downtime", "enable_notifications", "disable_notifications", "invoke_check"] * 2:
            box = Box(ctx, r, "0", real=build.client("asan"))
            conf = os.path.join(box.dir, "my conf.cfg")
            good = r.random() < .8
            with open(conf, "wb") as f:
                f.write(cl.conf(b"id", srv.port, key=b"pw" if good else b"no"))
            argv = ["-c", conf]
            host, service, comment = "w" + odd(r)[0], "s" + odd(r)[0], "c" + odd(r)[0]
            t = None
            if script in ("acknowledge", "downtime"):
                argv += ["-H", host, "-C", comment] + (["-S", service] if r.random() < .5 else [])
                obj = [host] + ([service] if "-S" in argv else [])
                kind = "SVC" if "-S" in argv else "HOST"
                if script == "downtime":
                    argv += ["-s", "2027-03-04 05:06:07 UTC", "-e", "@1900000000"]
                    t = ["1804136767", "1900000000", "1", "0", "0"]
                else:
                    t = ["1", "0", "1"]
                line = ";".join([{"acknowledge": f"ACKNOWLEDGE_{kind}_PROBLEM", "downtime": f"SCHEDULE_{kind}_DOWNTIME"}[script]] + obj + t + [box.gecos, comment])
                line = os.fsencode(line)
            elif script == "invoke_check":
                p = box.tool("check_it", PLUGIN)
                out, end = r.choice([o for o in OUTPUTS if not o.endswith(b"\n")]), r.choice("0123")
                open(os.path.join(box.bin, "plugin.out"), "wb").write(out)
                open(os.path.join(box.bin, "plugin.end"), "w").write(end)
                argv += ["-H", host, "-S", service, p]
                line = b"PROCESS_SERVICE_CHECK_RESULT;" + cl.esc(os.fsencode(f"{host};{service};{end};") + out)
            else:
                line = script.upper().encode()
            t0 = int(time.time())
            box.run(ctx, "exec", script, argv)
            what = f"{script} " + box.says(argv)
            if (box.rc == 0) != good:
                raise Violation(f"{script}: the exit status doesn't say whether the submission succeeded", what, soft=True)
            if good:
                want.append((line, what))
            ctx.case(("whole", script, good, k))
        if not wait_for(lambda: srv.fifo.snapshot().count(b"\n") >= len(want), 10):
            raise Violation("a script's submission doesn't reach the command file", f"{[w[0] for w in want]}\n{srv.fifo.snapshot()!r}", soft=True)
        got = [re.sub(rb"^\[\d+\] ", b"", g).rstrip(b"\n") for g in expand(split_stream(srv.fifo.snapshot())[0])[0]]
        if len(got) != len(want):
            raise Violation("scripts: another number of commands in the command file", f"{got}\n{[w[0] for w in want]}")
        for g, (w, what) in zip(got, want):
            if g != w:
                raise Violation("a script's submission arrives as something else", f"wanted {w!r}\n     got {g!r}\n{what}")
            ctx.count("commands compared in the command file")


XXD = """#!/usr/bin/python3 -I
import sys
data = sys.stdin.buffer.read()
if sys.argv[1:] not in ([], ["-p"]):
    sys.exit(9)
for i in range(0, len(data), 30):
    print(data[i:i + 30].hex())
"""


def debug_server(ctx, k):
    """What openssl s_client is asked for is what the configuration and the options say."""
    r = random.Random(f"{ctx.seed}/c32d/{k}")
    shell = r.choice(["dash", "bash", "exec"])
    mode = r.choice(["0", "0", "1", "42", "early", "kill9"])
    box = Box(ctx, r, mode)
    for n in ("config_file", "server", "port", "identity", "password", "option"):
        box.env.pop(n, None)
    box.tool("openssl", STANDIN)
    without = r.random() < .05
    box.tool("xxd", XXD if not without else "#!/bin/sh\nexit 127\n")
    kind = r.choice(["usage"] + ["go"] * 7)
    want = {"server": "localhost", "port": "5668", "identity": box.name.split(".")[0], "password": "change-me"}
    parts, kinds = [], []
    where = r.choice(["file", "file", "file", "none", "unreadable"])
    if where == "file":
        conf = os.path.join(box.dir, r.choice(["send.cfg", "my send.cfg", "a'b.cfg"]))
        lines = ["# comment = none", ""]
        for key in ("server", "port", "identity", "password", "tls_ciphers", "timeout", "delay"):
            if r.random() < .6:
                v = {"server": ["mon.example.org", "192.0.2.7"], "port": ["5669", "12345"], "identity": ["web1", "some-host", "with blank", "a=b", "Zo\u00e9"],
                     "password": ["forever-young", "x", "a = b", "p" * 29, "q" * 30, "r" * 31, "0123456789" * 20, "per%cent %s", "st*r", " blank ", "#hash", "tab\there", "-n", "p\u00e4ss", "semi;colon"],
                     "tls_ciphers": ["PSK-AES256-CBC-SHA", "PSK-AES128-CBC-SHA:PSK-3DES-EDE-CBC-SHA"], "timeout": ["5"], "delay": ["3"]}[key]
                v = r.choice(v)
                quote = r.choice(["'", '"']) if not re.fullmatch(r"[\w.-]+", v) else r.choice(["'", '"', ""])
                lines.append(r.choice(["", "  ", "\t"]) + key + r.choice([" = ", "=", "\t=\t", "   =", "= "]) + quote + v + quote + r.choice(["", "", " # a remark", "\t"]))
                want[key] = v
                kinds.append((key, len(v)))
        r.shuffle(lines)
        with open(conf, "w") as f:
            f.write("\n".join(lines) + "\n")
        parts.append(r.choice([["-c", conf], ["-c" + conf]]))
    elif where == "unreadable":
        parts.append(["-c", os.path.join(box.dir, "nothing here")])
    for o, key, vs in (("-H", "server", ["other.example.org", "198.51.100.1"]), ("-p", "port", ["5670", "1"])):
        if r.random() < .4:
            v = r.choice(vs)
            parts.append(r.choice([[o, v], [o + v]]))
            want[key] = v
            kinds.append(o)
    argv = mix(r, parts)
    if kind == "usage":
        argv = [a for a in argv if a != "--"] + r.choice([["extra"], ["-x"], ["-h"], ["-p"], ["--", "extra"]])
    box.run(ctx, shell, "debug_server", argv)
    what = f"debug_server {shell} " + box.says(argv)
    if kind == "usage" or without:
        if box.calls:
            raise Violation("debug_server: connects in spite of wrong usage", what)
        if box.rc == 0 or not box.err:
            raise Violation("debug_server: doesn't complain about wrong usage", what)
    else:
        if len(box.calls) != 1:
            raise Violation(f"debug_server: openssl was called {len(box.calls)} times instead of once", what)
        a = box.calls[0][0]
        for o, v in (("-connect", want["server"] + ":" + want["port"]), ("-psk_identity", want["identity"]), ("-psk", os.fsencode(want["password"]).hex()),
                     ("-cipher", want.get("tls_ciphers"))):
            if v is not None and (a.count(o) != 1 or a[a.index(o) + 1:][:1] != [v]):
                raise Violation(f"debug_server: another {o} than configured", f"wanted {v!r}\n{what}")
        if a[:1] != ["s_client"]:
            raise Violation("debug_server: doesn't run the TLS client as needed", what)
        if (box.rc == 0) != (mode == "0"):
            raise Violation("debug_server: doesn't pass on openssl's exit status", what)
        ctx.count("debug_server: connections compared")
    ctx.case(("debug_server", shell, where, kind, mode, str(kinds)))


def run(ctx):
    for s in ("acknowledge", "downtime", "invoke_check", "enable_notifications", "disable_notifications", "debug_server"):
        if not os.path.exists(os.path.join(build.REPO, "contrib", s)):
            raise Violation(f"there is no {s}")
    jobs = []
    for k in range(ctx.n(150, 4000)):
        jobs += [(command, k, "acknowledge"), (command, k, "downtime"), (plugin, k), (plugin, k + 100000)]
    for k in range(ctx.n(40, 800)):
        jobs += [(command, k, s) for s in ("enable_notifications", "disable_notifications")]
        jobs += [(usage, k, s) for s in ("acknowledge", "downtime", "invoke_check", "enable_notifications", "disable_notifications")]
    jobs += [(debug_server, k) for k in range(ctx.n(120, 3000))]
    jobs += [(whole, k) for k in range(ctx.n(3, 40))]

    def one(j):
        j[0](ctx, *j[1:])
    ctx.pmap(one, jobs)
