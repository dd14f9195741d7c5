"""C03: what an accepted submission may look like.  Oracle: the grammar
"[" digits "]" blanks TEXT newline, TEXT free of newline and NUL and authorised as a whole;
the answer to every payload and every byte that reaches the pipe are compared with it."""
import os, random, re
import nlib
from nlib import *

TECHNIQUE = 'runtime monitoring: online trace checker of the pipe under mutated payloads'
NOTE = "Every payload is judged by an independent recogniser of '[digits] text newline'; the pipe is compared with what was accepted; sampled and structured-exhaustive near the format's edges."
RULE = ("one case = one payload; distinct payloads; non-trivial = malformed payloads derived from authorised ones, and "
        "well-formed ones with unusual bytes")
ASSUMPTIONS = ["whether blanks may precede the timestamp is not judged"]

EVIL = [b"EVIL;1", b"SHUTDOWN_PROGRAM", b"PROCESS_FILE;/etc/passwd;0"]
GOOD = [b"GOOD;1", b"GOOD;some text", b"GOOD;", b"OTHER"]


def verdict(p):
    """True: must be accepted; False: must be refused; None: not judged."""
    m = re.fullmatch(rb"\[(\d+)\]([ \t]*)([^\n\0]*)\n", p, re.S)
    if m:
        return bool(re.fullmatch(rb"(?:GOOD;.*|OTHER)", m.group(3), re.S))
    if re.fullmatch(rb"[ \t]+\[(\d+)\][ \t]*[^\n\0]*\n", p, re.S) or re.fullmatch(rb"\[[ \t]*\d+[ \t]*\][ \t]*[^\n\0]*\n", p, re.S):
        return None
    return False


def payloads(r, n):
    ts = lambda: b"[%d]" % r.randint(0, 2**31)
    for g in GOOD:
        yield ts() + b" " + g + b"\n"
        for e in EVIL:
            yield ts() + b" " + g + b"\n" + ts() + b" " + e + b"\n"
            yield ts() + b" " + e + b"\n" + ts() + b" " + g + b"\n"
            yield ts() + b" " + e + b"] " + g + b"\n"
            yield ts() + b" " + e + b";] " + g + b"\n"
            yield e + b"] " + g + b"\n"
            yield b"[" + e + b"] " + g + b"\n"
            yield b"[1;" + e + b"] " + g + b"\n"
            yield b"[1] " + e + b"\n\0] " + g + b"\n"
            yield ts() + b" " + g + b"\n\0" + ts() + b" " + e + b"\n"
            yield ts() + b" " + g + b"\0\n" + ts() + b" " + e + b"\n"
            yield ts() + b" " + g + b"\0" + e + b"\n"
            yield b"\0" + ts() + b" " + g + b"\n"
            yield ts() + b"\0 " + g + b"\n"
            yield ts() + b" " + g + b"\n\0"
            yield ts() + b" " + g + b"\n\0\0\0" + e + b"\n"
            yield ts() + b" " + g + b"\r" + ts() + b" " + e + b"\n"
            yield b"] " + g + b"\n"
            yield b"[] " + g + b"\n"
            yield b"[12a] " + g + b"\n"
            yield b"[-1] " + g + b"\n"
            yield b"[0x1f] " + g + b"\n"
            yield b"[1.5] " + g + b"\n"
            yield b"[[1] " + g + b"\n"
            yield b"x[1] " + g + b"\n"
            yield b"[1 " + g + b"\n"
            yield b"1] " + g + b"\n"
            yield g + b"\n"
            yield g
            yield ts() + b" " + g
            yield ts() + b" " + g + b"\n\n"
            yield b"\n" + ts() + b" " + g + b"\n"
            yield ts() + b"\n " + g + b"\n"
            yield ts() + b" \n"
            yield ts() + b"\n"
            yield b"\n"
            yield b"\0"
            yield b"\n\n"
            yield b"\0\n"
            yield ts() + b"\t " + g + b"\n"
            yield ts() + g + b"\n"
            yield ts() + b"] " + g + b"\n"
            yield ts() + b" [2] " + g + b"\n"
            yield ts() + b" " + e + b" " + g + b"\n"
            yield ts() + b" " + g + b";" + e + b"\n"
    # the same, far into a long submission
    for k in (1000, 2047, 2048, 4090, 4095, 4096, 4097, 8192, 16384, 20000, 65536, 70000):
        k += r.randint(-3, 3)
        g = b"[%d] GOOD;" % r.randint(0, 2**31)
        e = r.choice(EVIL)
        yield g + b"x" * k + b"\n"
        yield g + b"x" * k
        yield g + b"x" * k + b"\n" + ts() + b" " + e + b"\n"
        yield g + b"x" * k + b"\n\0" + ts() + b" " + e + b"\n"
        yield g + b"x" * k + b"\0" + e + b"\n"
        yield g + b"x" * k + b"\n\n"
        yield g + b"\n" + b"x" * k + b"\n"
        yield ts() + b" " + e + b"\n" + g + b"x" * k + b"\n"
        yield ts() + b" " + e + b"x" * k + b"\n"
        yield b"[" + b"7" * k + b"] GOOD;1\n"
        yield b"[" + b"7" * k + b" GOOD;1\n"
        yield b"7" * k + b"] GOOD;1\n"
        yield b"x" * k + g + b"1\n"
        yield b"[1]" + b" " * k + b"GOOD;1\n"
        yield b"[1]" + b" " * k + e + b"\n"
    # authorised text with arbitrary bytes
    for _ in range(n):
        t = bytes(r.choice([r.randint(1, 255), r.randint(32, 126)]) for _ in range(r.choice([1, 5, 30, 200, 700])))
        yield b"[%d] GOOD;" % r.randint(0, 2**40) + t + b"\n"
    # random mutations of good ones
    for _ in range(3 * n):
        p = bytearray(ts() + b" " + r.choice(GOOD) + b"x" * r.randint(0, 4) + b"\n")
        for _ in range(r.randint(1, 3)):
            k, i = r.randint(0, 3), r.randrange(len(p)) if p else 0
            c = r.choice(b"\n\0[]0 9a;\r")
            if k == 0 and p:
                del p[i]
            elif k == 1:
                p.insert(i, c)
            elif p:
                p[i] = c
        if p:
            yield bytes(p)


def run(ctx):
    def one(i):
        r = random.Random(f"{ctx.seed}/C03/{i}")
        allp = list(payloads(r, ctx.n(120, 1500)))
        r.shuffle(allp)
        auth = 'authorize "x" { password = "pw"\n commands = { "GOOD;.*", "OTHER" }\n}\n'
        if i % 2:   # also with a pattern that matches anything at all on either side
            auth = 'authorize "x" { password = "pw"\n commands = { "GOOD;(.|\\n)*", "OTHER" }\n}\n'
        with Server(ctx, auth=auth, variant="plain" if i % 2 else "asan", loglevel=2, opts="max_command_size=0") as srv:
            s = sess(srv.port, b"x", b"pw")
            accepted = []
            for j, p in enumerate(allp):
                got = s.push(p)
                if got == b"OKAY\r\n":
                    acc = True
                    accepted.append(p)
                elif got.startswith(b"FAIL "):
                    acc = False
                else:
                    raise Violation("payload answered neither OKAY nor FAIL", f"{p!r} -> {got!r}")
                want = verdict(p)
                if want is None:
                    continue
                try:
                    p.decode("ascii")
                    plain = True
                except UnicodeDecodeError:
                    plain = False
                ctx.case(p, sample={"payload": repr(p[:80]), "accepted": acc} if r.random() < 0.01 else None)
                ctx.count("accepted" if acc else "refused")
                if acc and not want:
                    raise Violation("a submission that is not one authorised timestamped line was accepted", f"{p!r}")
                if want and not acc:
                    if not plain:      # bytes that are no characters in the server's locale
                        ctx.count("non-ASCII text refused")
                        continue
                    raise Violation("a well-formed authorised submission was refused", f"{p!r} -> {got!r}")
            s.quit()
            want = b"".join(accepted)
            for _ in range(500):
                lines, rest = split_stream(srv.fifo.snapshot())
                cmds, _f, bad = expand(lines, consume=False)
                if len(b"".join(cmds)) + len(rest) >= len(want):
                    break
                time.sleep(0.02)
            got = b"".join(cmds) + rest
            if got != want and sorted(cmds) != sorted(accepted):
                extra = [c for c in cmds if c not in set(accepted)]
                miss = [a for a in accepted if a not in set(cmds)]
                raise Violation("the command stream is not the accepted submissions", f"extra {extra[:3]} missing {miss[:3]} rest {rest!r}")
            for c in cmds:
                if not re.fullmatch(rb"\[\d+\][^\n\0]*\n", c) and not re.match(rb"[ \t]+\[|\[[ \t]", c):
                    raise Violation("a line of the command stream is not a timestamped command", repr(c))
    ctx.pmap(one, list(range(ctx.n(6, 60))), 6)
