"""Workloads that push identifiable commands through the server, and the accounting of
what was acknowledged against what reached the reader of the command pipe."""
import itertools, random, re, threading, time
from nlib import *

ID = re.compile(rb"^\[\d+\] C;([0-9a-z.]+);")


class Flow:
    def __init__(self, srv, seed=0):
        self.srv, self.seq = srv, itertools.count()
        self.r = random.Random(seed)
        self.lock = threading.Lock()
        self.sent = {}          # id -> full line
        self.acked = []         # ids in the order in which this side saw the OKAY
        self.refused = set()
        self.maybe = set()      # payload complete, answer not seen
        self.per_session = {}
        self.errors = []
        self.foreign = set()

    def make(self, session, size):
        i = b"%s.%d" % (session, next(self.seq))
        head = b"[%d] C;%s;" % (int(time.time()), i)
        r = random.Random(i)
        n = max(1, size - len(head) - 1)
        body = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789;\\|= ") for _ in range(min(n, 64)))
        body = (body * (n // len(body) + 1))[:n]
        line = head + body + b"\n"
        with self.lock:
            self.sent[i] = line
        return i, line

    def ok(self, i, session):
        with self.lock:
            self.acked.append(i)
            self.per_session.setdefault(session, []).append(i)

    def push(self, s, session, size):
        i, line = self.make(session, size)
        got = s.push(line)
        if got == b"OKAY\r\n":
            self.ok(i, session)
        elif got.startswith(b"FAIL"):
            self.refused.add(i)
        else:
            raise Violation("submission answered with neither OKAY nor FAIL", f"{got!r}")
        return i, got

    def pipelined(self, s, session, sizes, chunk=None, delay=0.0):
        """Each payload together with the next announcement, without waiting in between."""
        todo = [self.make(session, z) for z in sizes]
        if s.cmd(b"PUSH %d" % len(todo[0][1])) != b"OKAY\r\n":
            raise Violation("PUSH refused", repr(s.log[-1]))
        for n, (i, line) in enumerate(todo):
            data = line + (b"PUSH %d\r\n" % len(todo[n + 1][1]) if n + 1 < len(todo) else b"")
            for o in range(0, len(data), chunk or len(data)):
                s.e.send(data[o:o + (chunk or len(data))])
                if delay:
                    time.sleep(delay)
            a = s.line()
            if a == b"OKAY\r\n":
                self.ok(i, session)
            else:
                raise Violation("submission refused", repr(a))
            if n + 1 < len(todo) and s.line() != b"OKAY\r\n":
                raise Violation("PUSH refused", repr(s.log[-1]))

    def cut(self, s, session, size, where, rst=False):
        """Announce, send the first `where` bytes of the payload, disappear."""
        i, line = self.make(session, size)
        r = s.cmd(b"PUSH %d" % len(line))
        if r != b"OKAY\r\n":
            raise Violation("PUSH refused", repr(r))
        if where:
            s.e.send(line[:where])
        if where >= len(line):
            self.maybe.add(i)
        else:
            self.refused.add(i)
        s.e.close(rst=rst)

    # -- accounting ----------------------------------------------------------
    def delivered(self, consume=False):
        lines, rest = split_stream(self.srv.fifo.snapshot())
        if self.foreign:
            lines = [l for l in lines if l not in self.foreign]
        cmds, files, bad = expand(lines, consume)
        return lines, rest, cmds, files, bad

    def settle(self, timeout=20.0):
        """Wait until everything acknowledged is there (or time is up)."""
        end = time.monotonic() + timeout
        step = 0.01
        while True:
            lines, rest, cmds, files, bad = self.delivered()
            have = {m.group(1) for m in map(ID.match, cmds) if m}
            if all(i in have for i in self.acked) or time.monotonic() > end or not self.srv.alive():
                break
            time.sleep(step)
            step = min(step * 1.5, 0.3)
        time.sleep(0.05)
        return self.delivered()

    def check(self, timeout=20.0, lost_ok=False):
        """-> (lines, cmds, files); raises Violation when the accounts do not balance."""
        self.srv.check_alive()
        lines, rest, cmds, files, bad = self.settle(timeout)
        self.srv.check_alive()
        if bad:
            raise Violation("a referenced spool file is not there or not whole", "; ".join(bad[:3]))
        seen = {}
        for c in cmds:
            m = ID.match(c)
            if not m:
                raise Violation("the reader got something that is no submitted command", repr(c[:300]))
            i = m.group(1)
            if self.sent.get(i) != c:
                raise Violation("a delivered command differs from the submitted one",
                                f"submitted {self.sent.get(i)!r:.300}\ndelivered {c!r:.300}")
            seen[i] = seen.get(i, 0) + 1
        twice = [i for i, n in seen.items() if n > 1]
        if twice:
            raise Violation("a command was delivered more than once", repr(twice[:5]))
        ghost = [i for i in seen if i in self.refused]
        if ghost:
            raise Violation("a command that was not acknowledged was delivered", repr(ghost[:5]))
        acked = set(self.acked)
        ghost = [i for i in seen if i not in acked and i not in self.maybe]
        if ghost:
            raise Violation("a command was delivered without acknowledgement", repr(ghost[:5]))
        if not lost_ok:
            lost = [i for i in self.acked if i not in seen]
            if lost:
                raise Violation(f"{len(lost)} of {len(self.acked)} acknowledged commands never reached the reader",
                                repr(lost[:5]) + "\n" + self.srv.stderr()[-800:].decode("latin-1"), soft=True)
        return lines, cmds, files

    # -- order ---------------------------------------------------------------
    def order_violation(self, ids, ref):
        """Do ids appear in the relative order of ref?"""
        pos = {i: n for n, i in enumerate(ref)}
        last = -1
        for i in ids:
            if i in pos:
                if pos[i] < last:
                    return i
                last = pos[i]
        return None


def sizes(r, kind):
    if kind == "small":
        return r.randint(24, 200)
    if kind == "mixed":
        return r.choice([r.randint(24, 300), r.randint(300, 4000), r.randint(4090, 4100), r.randint(4100, 20000)])
    if kind == "edge":
        return r.choice([4094, 4095, 4096, 4097, 4098, 128, 127, 129, 256, 2048, 1024, 16384, 16385, 8192])
    if kind == "near":          # single commands right at the limit of one write
        return r.choice([4095, 4096, 4096, 4097])
    if kind == "pack":          # add up to about the limit of one write
        return r.choice([1024, 2048, 512, 1365, 1366, 819, 820, 2047, 2049])
    if kind == "large":
        return r.randint(5000, 60000)
    return int(kind)


def run_clients(flow, n, count, kind, how="lockstep", version=None, port=None, think=0.0):
    """n concurrent sessions."""
    srv = flow.srv

    def one(k):
        r = random.Random(f"{k}{kind}{count}")
        name = b"s%d" % next(flow.seq)
        kw = {"version": version or r.choice(["1.2", "1.3"])}
        s = sess(port or srv.port, **kw)
        if how == "lockstep":
            for _ in range(count):
                flow.push(s, name, sizes(r, kind))
                if think:
                    time.sleep(r.random() * think)
        elif how == "pipeline":
            left = count
            while left > 0:
                m = min(left, r.randint(1, 12))
                flow.pipelined(s, name, [sizes(r, kind) for _ in range(m)])
                left -= m
        elif how == "chunked":
            flow.pipelined(s, name, [sizes(r, kind) for _ in range(count)], chunk=r.choice([1400, 333, 5000]))
        r1, _ = s.quit()
        if r1 != b"OKAY\r\n":
            raise Violation("QUIT not acknowledged", repr(r1))

    errs = []

    def guarded(k):
        try:
            one(k)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=guarded, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        srv.check_alive()
        raise errs[0]
