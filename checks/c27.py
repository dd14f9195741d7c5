"""C27: what the Python client reports is what the server acknowledged.  Oracle: the commands recorded
by a scripted server (and found in the real server's pipe) against the outcome of each call."""
import bindcheck
from bindcheck import *

TECHNIQUE = "runtime monitoring: outcome of each Python call compared with what the server acknowledged, under scripted refusals, losses, stalls and restarts"
NOTE = ("The real Python module in the real interpreter makes sequences of calls on one to three objects, with arguments of all kinds and lengths and in all call forms, "
        "against a scripted server that acknowledges, refuses, answers nonsense, in pieces or late, stalls, closes and resets at each step (also during the TLS "
        "handshake), goes away and comes back, and against the real server with restarts. Every call's outcome is compared with the acknowledged commands.")
RULE = ("one case = one call or restart whose outcome was compared with the server's record; distinct = distinct (form, length, fault, step, outcome); all are non-trivial")
ASSUMPTIONS = ["commands of up to 1000 bytes have to be accepted; longer ones may be refused with an error but not shortened",
               "a result with an embedded newline is two commands and the server's to refuse"]
LANG = "python"


def run(ctx):
    jobs = [("forms", k) for k in range(ctx.n(6, 60))]
    jobs += [("sweep", k) for k in range(8)]
    jobs += [("faults", k) for k in range(ctx.n(48, 400))]
    jobs += [("edge", k) for k in range(ctx.n(1, 8))]
    jobs += [("idle", k) for k in range(ctx.n(2, 8))]
    jobs += [("credentials", k) for k in range(3)]
    jobs += [("answers", k) for k in range(ctx.n(4, 20))]
    jobs += [("gone", k) for k in range(ctx.n(3, 30))]
    jobs += [("real", k) for k in range(ctx.n(3, 20))]
    (build.python_ext if LANG == "python" else build.perl_ext)("plain")
    build.server("plain")

    def one(j):
        if ctx.left(60, 900) > 0:
            return getattr(bindcheck, j[0])(ctx, LANG, j[1])
    one.__name__ = "scenario"
    ctx.rng.shuffle(jobs)
    ctx.pmap(one, jobs, 16)
