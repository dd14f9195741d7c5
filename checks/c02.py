"""C02: authorisation.  Oracle: an independent evaluation (Python's re on the documented
meaning of the settings) of the configuration the check wrote, compared with the server's
answer to every submission and with what reached the pipe."""
import random, re
import nlib, pat
from nlib import *

TECHNIQUE = 'runtime monitoring: differential oracle (glibc regexec on whole text) over random configurations and commands'
NOTE = "Each submission's answer and its presence in the pipe is compared with an independent model of the documented authorization rules; sampled."
RULE = ("one case = one submission; distinct = distinct (pattern set, command); non-trivial = the reference decides it "
        "unambiguously (both outcomes are frequent)")
ASSUMPTIONS = ["patterns are limited to constructs whose language is the same in POSIX ERE and Python re",
               "where a pattern's verdict depends on whether the final newline counts as text, no verdict is expected"]
HOSTS = ["web", "web-1", "web-10", "db", "localhost", "a", "mail.example.org"]
SVCS = ["http", "disk", "disk /", "load", "swap-2", "a"]
ALPHA = "abw-1/ ."
CALPHA = "ABC_;1 x"


def hostpat(r):
    if r.random() < 0.5:
        h = r.choice(HOSTS)
        k = r.randint(0, 6)
        if r.random() < 0.15:
            return "(%s)|(%s)" % (h, r.choice(HOSTS)), None
        return [h.replace(".", "\\."), h + "|" + r.choice(HOSTS), h[:1] + "[a-z0-9-]*", "(" + h + "|" + r.choice(HOSTS) + ")-[0-9]+",
                "[^;]+", h + ".?", "[^;]*" + h][k], None
    n = pat.gen(r, ALPHA, 2)
    return pat.text(n), n


def svcpat(r):
    if r.random() < 0.5:
        s = r.choice(SVCS)
        return [s, s + "|" + r.choice(SVCS), s[:1] + "[a-z /]*", "(" + s + ")", "[^;]+"][r.randint(0, 4)]
    return pat.text(pat.gen(r, ALPHA, 2))


def cmdpat(r):
    k = r.randint(0, 9)
    h = r.choice(HOSTS)
    if k > 7:
        return [f"(ENABLE_NOTIFICATIONS)|(DEL_[^;]*;{h})", f"(ENABLE)_NOTIFICATIONS|SCHEDULE_HOST_CHECK;({h})", f"(A|B)|SCHEDULE_HOST_CHECK;{h};.*|(C)"][r.randint(0, 2)]
    return ["ENABLE_NOTIFICATIONS", "ENABLE_NOTIFICATIONS|DISABLE_NOTIFICATIONS", "SCHEDULE_[A-Z_]+;%s;[0-9]+" % h,
            "(ENABLE|DISABLE)_HOST_CHECK;%s" % h, "DEL_[^;]*;[0-9]{1,3}", "ADD_HOST_COMMENT;%s;.*" % h, None, None][k] \
        or pat.text(pat.gen(r, CALPHA, 3))


class Auth:
    """What one identity may do."""

    def __init__(self, commands, hosts, services):
        self.c, self.h, self.s = commands, hosts, services

    def strict(self, t):
        """As documented: patterns for fields are matched against fields."""
        if any(pat.full(p, t) for p in self.c):
            return True
        f = t.split(";")
        if f[0] == "PROCESS_HOST_CHECK_RESULT" and len(f) >= 3 and len(";".join(f[2:])) >= 1:
            if any(pat.full(p, f[1]) for p in self.h):
                return True
        if f[0] == "PROCESS_SERVICE_CHECK_RESULT" and len(f) >= 4:
            rest = ";".join(f[3:])
            if re.fullmatch("(?s).+;.+", rest):
                for p in self.s:
                    sp, at, hp = p.rpartition("@")
                    if not at:
                        sp, hp = p, "[^;]+"
                    if pat.full(sp, f[2]) and pat.full(hp, f[1]):
                        return True
        return False

    def literal(self, t):
        """With field patterns able to match across field boundaries."""
        if any(pat.full(p, t) for p in self.c):
            return True
        if any(pat.full("PROCESS_HOST_CHECK_RESULT;(%s);.+" % p, t) for p in self.h):
            return True
        for p in self.s:
            sp, at, hp = p.rpartition("@")
            if not at:
                sp, hp = p, "[^;]+"
            if pat.full("PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+" % (hp, sp), t):
                return True
        return False


def setting(name, vals, r):
    if not vals:
        return ""
    if len(vals) == 1 and r.random() < 0.5:
        return f"  {name} = {q(vals[0])}\n"
    return f"  {name} = {{ " + ", ".join(q(v) for v in vals) + " }\n"


def names(r):
    """Identities, often ones that are easily confused."""
    k = r.randint(0, 9)
    if k < 3:
        return ["one", "two", "three"]
    x = "".join(r.choice("abcxyz019-._") for _ in range(r.choice([1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 120])))
    if k < 7:
        return [x + "a", x + "b", x]
    if k == 7:
        return ["a" + x, "b" + x, x]
    if k == 8:
        return ["ab" + x, "Ab" + x, "ba" + x]
    return [x + "a" + x[::-1], x + "b" + x[::-1], x[::-1] + "a" + x]


def config(r):
    g = {"commands": [], "hosts": [], "services": []}
    make = {"commands": cmdpat, "hosts": lambda r: hostpat(r)[0], "services": svcpatfull}
    for k in g:
        if r.random() < 0.5:
            g[k] = [make[k](r) for _ in range(r.randint(1, 2))]
    secs = {}
    for ident in names(r) + (["*"] if r.random() < 0.7 else []):
        s = {}
        for k in g:
            s[k] = [make[k](r) for _ in range(r.randint(1, 3))] if r.random() < 0.55 else []
        secs[ident] = s
    t = "password = \"pw\"\n"
    parts = []
    for ident, s in secs.items():
        parts.append(f"authorize {q(ident)} {{\n" + "".join(setting(k, v, r) for k, v in s.items()) + "}\n")
    gl = "".join(setting(k, v, r) for k, v in g.items())
    t += gl + "".join(parts) if r.random() < 0.5 else "".join(parts) + gl
    eff = {i: Auth(*[(s[k] or g[k]) for k in ("commands", "hosts", "services")]) for i, s in secs.items()}
    return t, eff


def svcpatfull(r):
    s = svcpat(r)
    k = r.random()
    if k < 0.6:
        return s + "@" + hostpat(r)[0]
    if k < 0.7:
        return s + "@x@" + hostpat(r)[0]
    return s


def near(r, p, alpha):
    """Strings around the language of pattern p (p given as text)."""
    # crude sampler working on the text: strip operators
    try:
        s = p
        for _ in range(4):
            s = re.sub(r"\(([^()]*)\)", lambda m: r.choice(m.group(1).split("|")), s)
        s = r.choice(s.split("|"))
        s = re.sub(r"\[\^;[^\]]*\]", lambda m: r.choice("qz9"), s)
        s = re.sub(r"\[([^\]]*)\]", lambda m: r.choice([c for c in m.group(1) if c not in "-^"] or ["a"]), s)
        s = re.sub(r"\\(.)", "\x00\\1", s)
        s = re.sub(r"(\x00?.)\{(\d),(\d)\}", lambda m: m.group(1) * r.randint(int(m.group(2)), int(m.group(3))), s)
        s = re.sub(r"(\x00?.)[*+]", lambda m: m.group(1) * r.randint(1, 3), s)
        s = re.sub(r"(\x00?.)\?", lambda m: m.group(1) if r.random() < 0.5 else "", s)
        s = re.sub(r"(?<!\x00)\.", lambda m: r.choice(alpha), s)
        return s.replace("\x00", "")
    except re.error:
        return p


def mutate(r, s):
    k = r.randint(0, 9)
    if k == 0:
        return s + r.choice("x1;|-")
    if k == 1:
        return r.choice("x1A") + s
    if k == 2:
        return s[:-1]
    if k == 3:
        return s[1:]
    if k == 4:
        return s.swapcase()
    if k == 5 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice("xz;.") + s[i + 1:]
    if k == 6 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i] + s[i:]
    return s


def commands_for(r, a, all_auth, n):
    out = []
    for _ in range(n):
        b = r.choice([a, a, a] + all_auth)
        k = r.randint(0, 3)
        if k == 0 and b.c:
            t = mutate(r, near(r, r.choice(b.c), CALPHA))
        elif k == 1 and b.h:
            h = mutate(r, near(r, r.choice(b.h), ALPHA)) if r.random() < 0.8 else r.choice(HOSTS)
            t = r.choice(["PROCESS_HOST_CHECK_RESULT"] * 6 + ["PROCESS_SERVICE_CHECK_RESULT", "process_host_check_result"]) + ";" + h + ";" + \
                r.choice(["0;ok", "2;down; really", "0;", "x"])
        elif k == 2 and b.s:
            sp, at, hp = r.choice(b.s).rpartition("@")
            if not at:
                sp, hp = hp, None
            h = mutate(r, near(r, hp, ALPHA)) if hp is not None else r.choice(HOSTS)
            s = mutate(r, near(r, sp, ALPHA))
            t = r.choice(["PROCESS_SERVICE_CHECK_RESULT"] * 6 + ["PROCESS_HOST_CHECK_RESULT"]) + ";" + h + ";" + s + ";" + \
                r.choice(["0;ok", "2;bad; worse|x=1", "0", "1;a"])
        else:
            t = r.choice(["ENABLE_NOTIFICATIONS", "DISABLE_NOTIFICATIONS", "SCHEDULE_HOST_CHECK;web;123", "SHUTDOWN_PROGRAM",
                          "DEL_HOST_COMMENT;12", "ADD_HOST_COMMENT;db;x;y", "PROCESS_FILE;/nonexistent/f;1", "ENABLE_NOTIFICATIONS;x",
                          "xENABLE_NOTIFICATIONS", "ENABLE_NOTIFICATIONSx", "XDISABLE_NOTIFICATIONS"])
        if t and "\n" not in t and "\0" not in t and t[0] not in " \t":
            out.append(t)
    return out


def close(sessions):
    while sessions:
        r, _ = sessions.popitem()[1].quit()
        if r != b"OKAY\r\n":
            raise Violation("the session did not go on after refusals", repr(r))


def run(ctx):
    def one(i):
        r = random.Random(f"{ctx.seed}/C02/{i}")
        t, eff = config(r)
        auths = list(eff.values())
        stamp = 1000000
        accepted, refused = [], []
        with Server(ctx, auth=t, variant="plain" if i % 3 else "asan", loglevel=2, opts="max_command_size = 0") as srv:
            known = [i for i in eff if i != "*"]
            some = known[0]
            todo = []
            for ident in known + ["stranger", r.choice([some + "x", some[:-1] or "x", some.swapcase(), "*"])]:
                a = eff.get(ident) or eff.get("*")
                if a is None:
                    continue
                todo += [(ident, a, x) for x in commands_for(r, a, auths, ctx.n(60, 150))]
            if i % 2:
                # Sessions at the same time.
                r.shuffle(todo)
            sessions = {}
            for n, (ident, a, text) in enumerate(todo):
                if i % 2 == 0 and ident not in sessions:
                    close(sessions)
                if i % 2 and ident in sessions and r.random() < 0.02:
                    close({ident: sessions.pop(ident)})
                if ident not in sessions:
                    sessions[ident] = sess(srv.port, ident.encode(), b"pw")
                s = sessions[ident]
                stamp += 1
                want, lit = a.strict(text), a.literal(text) or a.literal(text + "\n")
                w2 = a.strict(text + "\n")
                ts = b"[%d]" % stamp
                line = ts + r.choice([b" ", b" ", b"", b"  ", b"\t"]) + text.encode() + b"\n"
                got = s.push(line)
                if got == b"OKAY\r\n":
                    acc = True
                elif got.startswith(b"FAIL "):
                    acc = False
                else:
                    raise Violation("a submission was answered neither OKAY nor FAIL", f"{line!r} -> {got!r}")
                (accepted if acc else refused).append(line)
                if want != w2:
                    ctx.case((t, text), False)
                    continue
                ctx.case((t, text), True, sample={"identity": ident, "command": text, "accepted": acc} if r.random() < 0.02 else None)
                ctx.count("accepted" if acc else "refused")
                if acc and not want and lit:
                    ctx.violation("a hosts/services pattern matched across the fields of the command",
                                  f"identity {ident}: {line!r}\n{t}", key="pattern-straddles-fields")
                elif acc != want:
                    raise Violation("a submission was " + ("accepted without" if acc else "refused despite") + " a matching pattern",
                                    f"identity {ident}: {line!r} -> {got!r}, reference says {want}\n"
                                    f"commands {a.c}\nhosts {a.h}\nservices {a.s}\n{t}")
            close(sessions)
            total = sum(map(len, accepted))
            srv.wait_fifo(lambda b: b.count(b"\n") >= len(accepted) or b"PROCESS_FILE;" in b, 10)
            lines, rest = split_stream(srv.fifo.snapshot())
            cmds, _, bad = expand(lines)
            if rest or bad or cmds != accepted:
                got = set(cmds)
                for l in refused:
                    if l in got:
                        raise Violation("a refused submission reached the pipe", repr(l))
                if sorted(cmds) != sorted(accepted):
                    raise Violation("accepted submissions and pipe contents differ",
                                    f"missing {[l for l in accepted if l not in got][:3]}, extra {[c for c in cmds if c not in set(accepted)][:3]} {bad}", soft=True)

    ctx.pmap(one, list(range(ctx.n(24, 400))), 6)
    ctx.pmap(lambda i: churn(ctx, i), list(range(ctx.n(4, 24))), 4)
    ctx.attempt(straddle, ctx)
    ctx.pmap(lambda k: many(ctx, k), ("commands", "hosts", "services"), 3)
    ctx.pmap(lambda v: exhausted(ctx, v), ("plain", "asan"), 2)


def churn(ctx, i):
    """Many short sessions, one after the other and a few at a time: each has its own identity's
    permissions, whichever identity was there before it."""
    r = random.Random(f"{ctx.seed}/C02/churn{i}")
    pool = ["a", "b", "al", "bo", "eve", "mallory", "host-1.example.org", "host-2.example.org", "x" * 23, "y" * 23, "x" * 24, "y" * 25, "z" * 60, "w" * 60]
    ids = r.sample(pool, 8) + ["same-len-1", "same-len-2", "same-len-3"]
    auth = "".join(f'authorize "{n}" {{ password = "pw"\n commands = "OWN{k};.*"\n}}\n' for k, n in enumerate(ids))
    auth += 'authorize "*" { password = "pw"\n commands = "ANY;.*"\n}\n'
    with Server(ctx, auth=auth, variant="asan" if i % 4 == 3 else "plain", loglevel=r.choice([0, 2])) as srv:
        # strictly one after the other, in the same steps, with names of the same length
        same = [n for n in ids if n.startswith("same")]
        for n in range(ctx.n(60, 200)):
            ident = r.choice(same)
            s = sess(srv.port, ident.encode(), b"pw", version=("1.2", "1.3")[i % 2])
            for who in [ident] + r.sample([x for x in same if x != ident], n % 3):
                got = s.push(b"[1500000000] OWN%d;%d\n" % (ids.index(who), n))
                if (got == b"OKAY\r\n") != (who == ident):
                    raise Violation("a submission was " + ("accepted without" if who != ident else "refused despite") + " a matching pattern",
                                    f"session {n} of many: identity {ident}, command of {who}: {got!r}")
                ctx.count("accepted" if who == ident else "refused")
            s.quit()
            try:
                s.e.read_to_end(5)
            except (Closed, TLSError, TimeoutError):
                pass
            ctx.case(("turn", i, n))
        ctx.count("sessions in turn", n + 1)
        live = []
        for n in range(ctx.n(130, 500)):
            while live and r.random() < (0.9 if i % 2 else 0.4):
                s, _ = live.pop(r.randrange(len(live)))
                if r.random() < 0.5:
                    s.quit()
                else:
                    s.e.close(rst=r.random() < 0.3)
            k = r.randrange(-2, len(ids))
            k = max(k, -1)
            ident = ids[k] if k >= 0 else r.choice(["nobody", "same-len-4", "q" * r.choice([1, 2, 23, 24, 60])])
            s = sess(srv.port, ident.encode(), b"pw", version=r.choice(["1.2", "1.3"]))
            live.append((s, k))
            for s, k in [(s, k)] + (r.sample(live, 1) if len(live) > 1 else []):
                o = r.choice([x for x in range(-1, len(ids)) if x != k])
                for who in r.sample([k, o], 2):
                    got = s.push(b"[1500000000] %s;%d\n" % (b"OWN%d" % who if who >= 0 else b"ANY", n))
                    if (got == b"OKAY\r\n") != (who == k):
                        raise Violation("a submission was " + ("accepted without" if who != k else "refused despite") + " a matching pattern",
                                        f"session {n} of many: identity {ids[k] if k >= 0 else 'without a section'}, command of {ids[who] if who >= 0 else '*'}: {got!r}")
                    ctx.count("accepted" if who == k else "refused")
            ctx.case(("churn", i, n, k))
        for s, _ in live:
            s.e.close()
        ctx.count("sessions in turn", n + 1)


def straddle(ctx):
    """A pattern that can match a semicolon reaches into the neighbouring fields."""
    auth = 'authorize "x" { password = "pw"\n hosts = ".*-web"\n services = ".*-http@db"\n}\n'
    with Server(ctx, auth=auth) as srv:
        s = sess(srv.port, b"x", b"pw")
        for line, ok in ((b"[1] PROCESS_HOST_CHECK_RESULT;my-web;0;x\n", True), (b"[1] PROCESS_HOST_CHECK_RESULT;evil;0;my-web;x\n", False),
                         (b"[1] PROCESS_SERVICE_CHECK_RESULT;db;my-http;0;x\n", True),
                         (b"[1] PROCESS_SERVICE_CHECK_RESULT;db;evil;0;my-http;0;x\n", False)):
            got = s.push(line)
            if (got == b"OKAY\r\n") != ok:
                ctx.violation("a hosts/services pattern matched across the fields of the command", f"{line!r} -> {got!r}",
                              key="pattern-straddles-fields" if not ok else None)
            ctx.case(line)
        s.quit()


def many(ctx, kind):
    """Each of many patterns counts, in a section and among the defaults."""
    n = ctx.n(300, 3000)
    pats = ["h%d" % k if kind == "hosts" else "s%d@h%d" % (k % 7, k) if kind == "services" else "C%d;[a-z]+" % k for k in range(n)]

    def cmd(k):
        return {"hosts": b"PROCESS_HOST_CHECK_RESULT;h%d;0;x" % k, "services": b"PROCESS_SERVICE_CHECK_RESULT;h%d;s%d;0;x" % (k, k % 7),
                "commands": b"C%d;abc" % k}[kind]
    lst = kind + " = {" + ",\n".join(q(p) for p in pats) + "}\n"
    for where in ("section", "defaults"):
        auth = (lst if where == "defaults" else "") + 'authorize "x" { password = "pw"\n' + (lst if where == "section" else "") + "}\n"
        with Server(ctx, auth=auth, variant="plain", loglevel=2) as srv:
            s = sess(srv.port, b"x", b"pw")
            for k in list(range(0, n, 17)) + [1, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, n - 1, n, n + 1, 10 * n]:
                got = s.push(b"[1500000000] " + cmd(k) + b"\n")
                if (got == b"OKAY\r\n") != (k < n):
                    raise Violation("a submission was " + ("accepted without" if k >= n else "refused despite") + " a matching pattern",
                                    f"number {k} of {n} {kind} in the {where}: {got!r}")
                ctx.case((kind, where, k))
                ctx.count("accepted" if k < n else "refused")
            s.quit()


def exhausted(ctx, variant):
    """Matching fails for want of memory: what no pattern is known to match is refused."""
    auth = 'authorize "x" { password = "pw"\n commands = "ENABLE_NOTIFICATIONS"\n hosts = "web"\n services = "a@b"\n}\n'
    with Server(ctx, auth=auth, variant=variant, mon=True, loglevel=2) as srv:
        s = sess(srv.port, b"x", b"pw")
        good, bad = b"[1500000000] ENABLE_NOTIFICATIONS\n", [b"[1500000000] DISABLE_NOTIFICATIONS\n", b"[1500000000] PROCESS_HOST_CHECK_RESULT;db;0;x\n",
                                                             b"[1500000000] SHUTDOWN_PROGRAM\n", b"[1500000000] PROCESS_SERVICE_CHECK_RESULT;b;b;0;x\n"]
        for every in (1, 2, 3, 4, 7):
            srv.set_ctl(f"regex={every}")
            for n in range(8):
                got = s.push(bad[n % len(bad)])
                if not got.startswith(b"FAIL "):
                    raise Violation("a submission was accepted without a matching pattern", f"{bad[n % len(bad)]!r} -> {got!r} while every {every}th match fails")
                ctx.case(("exhausted", variant, every, n))
                ctx.count("refused")
            srv.set_ctl("")
            if s.push(good) != b"OKAY\r\n" or s.push(bad[0]) == b"OKAY\r\n":
                raise Violation("authorisation is wrong after matching failed", f"{variant}, every {every}th match failed")
            ctx.count("accepted")
        s.quit()
