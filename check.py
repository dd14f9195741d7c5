#!/usr/bin/env python3
"""python3 check.py <ID> [<ID> ...]: decide properties of /repo's working tree."""
import importlib, os, sys, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import build, nlib


def one(pid):
    mod = importlib.import_module(pid.lower())
    ctx = nlib.Ctx(pid, getattr(mod, "LEVEL", "exploration"))
    ctx.rule = getattr(mod, "RULE", "")
    ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        mod.run(ctx)
    except nlib.StopCheck:
        pass
    except nlib.Violation as v:
        try:
            ctx.violation(v.what, v.detail, v.key)
        except nlib.StopCheck:
            pass
    except nlib.Inconclusive as e:
        ctx.inconclusive.append(str(e))
    except build.BuildError as e:
        print(f"{pid}: cannot build: {e}")
        ctx.cleanup()
        return 2
    rc = ctx.finish()
    ctx.cleanup()
    return rc


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        for v in ("asan", "plain", "asan-noaio"):
            build.server(v)
        for v in ("asan", "plain"):
            build.client(v)
            build.python_ext(v)
            build.perl_ext(v)
        print("built")
        sys.exit(0)
    rc = 0
    for a in sys.argv[1:]:
        try:
            rc = max(rc, one(a))
        except Exception:
            traceback.print_exc()
            rc = max(rc, 3)
    sys.stdout.flush()
    os._exit(rc)
