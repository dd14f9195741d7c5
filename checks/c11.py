"""C11: request-line and command-size limits are enforced exactly."""
import random
from nlib import *

TECHNIQUE = "runtime monitoring: boundary oracle on announced sizes and line lengths around and far beyond every limit"
NOTE = ("For each configured limit every announced size around the limit and around powers of two up to 2^65 is answered as the "
        "specification says, with the session usable afterwards; line lengths are swept over and around 1024 and 2048.")
RULE = ("one case = one announced size or line length answered; distinct = distinct (limit, size) or (state, length, packaging); "
        "non-trivial = within 5 of a limit, beyond an integer range, or followed by a full submission")
ASSUMPTIONS = ["line lengths from 1025 to 2048 may be processed or end the session", "leading + signs and blanks in numbers are not judged"]


def payload(n):
    h = b"[1500000000] C;"
    return h + b"z" * (n - len(h) - 1) + b"\n" if n > len(h) + 1 else None


def sizes(ctx, arg):
    limit, variant = arg
    conf = "" if limit is None else f"max_command_size = {limit}"
    lim = 16384 if limit is None else limit
    with Server(ctx, variant=variant, opts=conf + "\ntimeout = 60") as srv:
        n = 0
        around = set()
        for c in [lim, 1, 128, 4096, 16384]:
            around |= {c + d for d in (-2, -1, 0, 1, 2, 3)}
        around |= {17, 100, 1000, 5000, 40000}
        s = sess(srv.port)
        for k in sorted(x for x in around if 0 < x < 2 ** 24):
            r = s.cmd(b"PUSH %d" % k)
            ok = lim == 0 or k <= lim
            ctx.case((limit, k), sample={"limit": lim, "announced": k, "answer": r} if abs(k - lim) < 2 else None)
            if ok:
                if r != b"OKAY\r\n":
                    raise Violation("a size within the limit was refused", f"limit {lim}, size {k}: {r!r}")
                p = payload(k)
                s.e.send(p or b"x" * k)
                r = s.line()
                if p and r != b"OKAY\r\n" or not p and not r.startswith(b"FAIL"):
                    raise Violation("a command within the limit got the wrong answer", f"limit {lim}, size {k}: {r!r}")
                n += bool(p)
            elif not r.startswith(b"FAIL "):
                raise Violation("a size beyond the limit was accepted", f"limit {lim}, size {k}: {r!r}")
            if s.cmd(b"NOOP") != b"OKAY\r\n":
                raise Violation("the session is unusable afterwards", f"limit {lim}, size {k}: {s.log[-1]!r}")
        # not representable, or no positive number
        big = []
        for e in (31, 32, 33, 63, 64, 65):
            big += [b"%d" % (2 ** e + d) for d in (-1, 0, 1, 20, 100)]
        big += [b"9" * 30, b"9" * 900, b"1" + b"0" * 40]
        for t in big + [b"0", b"-0", b"-1", b"-20", b"-4294967276", b"-18446744073709551596", b"x", b"20x", b"2 0", b"0x20", b"1e3", b"--5", b"5.0", b"20,", b"000"]:
            v = int(t) if re.fullmatch(rb"-?\d+", t) else None
            ctx.case((limit, t))
            if v is not None and v > 0 and (lim == 0 or v <= lim) and v < 2 ** 31:
                continue            # representable, and within the limit
            r = s.cmd(b"PUSH " + t)
            if not r.startswith(b"FAIL "):
                raise Violation("a size that is not a positive number within range was not refused", f"limit {lim}: PUSH {t[:60]!r}: {r!r}")
            if s.cmd(b"NOOP") != b"OKAY\r\n":
                raise Violation("the session is unusable afterwards", f"limit {lim}, {t!r}: {s.log[-1]!r}")
        # the largest representable sizes, where nothing limits them (the payload is not sent)
        if lim == 0:
            for k in (2 ** 24, 2 ** 31 - 2, 2 ** 31 - 1):
                t = sess(srv.port)
                r = t.cmd(b"PUSH %d" % k)
                ctx.case((limit, k), sample={"limit": lim, "announced": k, "answer": r})
                if r != b"OKAY\r\n":
                    raise Violation("a representable size was refused without a limit", f"size {k}: {r!r}")
                t.close()
        # leading zeros do not change the value
        p = payload(60)
        if lim == 0 or lim >= 60:
            r = s.cmd(b"PUSH 00000000000000000000060")
            if r == b"OKAY\r\n":
                s.e.send(p)
                if s.line() != b"OKAY\r\n":
                    raise Violation("a size with leading zeros was misread", repr(s.log[-1]))
                n += 1
        s.quit()
        if not srv.wait_fifo(lambda d: len(expand(split_stream(d)[0], consume=False)[0]) >= n):
            raise Violation("accepted commands were not delivered", f"{n} accepted", soft=True)
        got = expand(split_stream(srv.fifo.snapshot())[0], consume=False)[0]
        if len(got) != n or any(lim and len(g) > lim for g in got):
            raise Violation("the delivered commands do not match", f"{n} accepted, {len(got)} delivered, longest {max(map(len, got))}")
        ctx.count("announced sizes", len(around) + len(big))


def line_len(ctx, arg):
    state, pack = arg
    with Server(ctx, variant="asan", loglevel=0) as srv:
        r = random.Random(f"{ctx.seed}{arg}")
        for total in sorted({*range(1016, 1030), *range(1900, 1925), *range(2040, 2060), 1, 2, 5, 100, 127, 128, 129, 130, 256, 500, 1000, 1500, 3000, 5000}):
            for end in (b"\r\n", b"\n"):
                if total < len(end):
                    continue
                s = sess(srv.port, moin=state == "C")
                line = b"y" * (total - len(end)) + end
                if state == "C" and total >= 50 and r.random() < 0.3:
                    line = b"PUSH " + b"0" * (total - len(end) - 5) + end
                if pack == "whole":
                    s.e.send(line)
                elif pack == "after others":
                    s.e.send(b"q\r\n" * 30 + line)
                    for _ in range(30):
                        if not s.line().startswith(b"FAIL "):
                            raise Violation("a short line was not processed", repr(s.log[-1]))
                else:
                    i = 0
                    while i < len(line):
                        k = r.choice([1, 7, 64, 127, 128, 129, 500])
                        try:
                            s.e.send(line[i:i + k])
                        except Closed:
                            break
                        i += k
                try:
                    a = s.line()
                except Closed:
                    a = b"(closed)"
                ctx.case((state, pack, total, end))
                if total <= 1024 and not a.startswith(b"FAIL "):
                    raise Violation("a request line of at most 1024 bytes was not processed", f"{total} bytes, {state}, {pack}: {a!r}")
                if not a.startswith((b"FAIL ", b"BAIL ")):
                    # A reset can overtake the BAIL while this side is still sending.
                    if a != b"(closed)" or total <= (1024 if pack == "pieces" else 2048):
                        raise Violation("unexpected response to a long line", f"{total} bytes, {state}, {pack}: {a!r}")
                if a.startswith(b"FAIL ") and total <= 1024:
                    if s.cmd(b"MOIN 1 abc" if state == "H" else b"NOOP") not in (b"MOIN 1\r\n", b"OKAY\r\n"):
                        raise Violation("the session is unusable after a long line", f"{total} bytes: {s.log[-1]!r}")
                s.close()
        # without a terminator
        for total in (2049, 2050, 2100, 2176, 2177, 3000, 20000, 300000):
            s = sess(srv.port, moin=state == "C")
            try:
                data = b"n" * total
                if pack == "pieces":
                    while data:
                        k = r.choice([1, 50, 128, 1000])
                        if total <= 2200 and total - len(data) + k > 1024:
                            k = len(data)       # nothing may follow the piece that ends the session (reset)
                        s.e.send(data[:k])
                        data = data[k:]
                else:
                    s.e.send(data)
            except Closed:
                pass
            try:
                a = s.line()
            except Closed as e:
                a = b"(closed)"
            ctx.case((state, pack, total, "unterminated"))
            # a reset can overtake the BAIL when data was still in flight
            if not a.startswith(b"BAIL ") and not (a == b"(closed)" and total > 2200):
                raise Violation("an endless line did not end the session with BAIL", f"{total} bytes, {state}, {pack}: {a!r}")
            try:
                rest = s.e.read_to_end(10)
            except TLSError:
                rest = b""
            if rest:
                raise Violation("the session went on after BAIL", repr(rest[:100]))
            s.close()
        ctx.count("line sweeps")


def run(ctx):
    limits = [None, 1, 60, 100, 4096, 16384, 65536, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 100, 2 ** 63 - 1] + ([2, 127, 128, 4095, 4097, 1000000] if ctx.thorough else [])
    ctx.pmap(lambda a: sizes(ctx, a), [(l, v) for l in limits for v in (("asan", "plain") if ctx.thorough else ("asan",))], 8)
    ctx.pmap(lambda a: line_len(ctx, a), [(s, p) for s in "HC" for p in ("whole", "after others", "pieces")], 8)
