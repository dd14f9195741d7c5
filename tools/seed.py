#!/usr/bin/env python3
"""seed.py SPEC.py...: turns specifications of planted bugs into /verif/seeded/<id>/ after confirming them
in a scratch copy of /repo (mount namespace).  seed.py --check ID...: runs the property's check on each.
A specification sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python source)."""
import json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(V, "tools/seedlib")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def scratch():
    w = tempfile.mkdtemp(prefix="seed-")
    sh(["cp", "-a", "/repo", w])
    return w


def ns(w, script, timeout=900, env=None):
    return sh(["unshare", "-mnpf", "--mount-proc", "bash", "-c", f"ip link set lo up; mount --bind {w}/repo /repo && cd /repo && {script}"],
              timeout=timeout, env={**os.environ, **(env or {})})


def tests(w):
    r = ns(w, f"bash /opt/vp/test.sh {w}/o.json")
    try:
        return set(json.load(open(f"{w}/o.json"))["passed"])
    except OSError:
        return set()


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    sid = os.path.splitext(os.path.basename(spec))[0]
    w = scratch()
    try:
        d = os.path.join(w, "dir")
        os.makedirs(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write("from dlib import *\n" + g["DEMO"])
        for n in ("dlib.py", "tlspsk.py"):
            shutil.copy(os.path.join(LIB, n), d)
        for n, t in g.get("FILES", {}).items():
            open(os.path.join(d, n), "w").write(t)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(g.get("SH") or '#!/bin/sh\nexec timeout 200 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = ns(w, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % d)
        if r.returncode != 0:
            return f"{sid}: demo fails on the clean tree: {r.returncode}\n{r.stdout[-2000:]}"
        for f, old, new in g["EDITS"]:
            p = os.path.join(w, "repo", f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{sid}: {f}: text occurs {t.count(old)} times: {old!r}"
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/repo", capture_output=True).stdout
        blame = {}
        f, ln, orig, mine = None, 0, 0, 0
        for l in diff.decode("latin-1").splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                b = subprocess.run(["git", "blame", "-s", f], cwd="/repo", capture_output=True).stdout.decode("latin-1")
                blame[f] = [x.startswith("^") for x in b.splitlines()]
            elif l.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-"):
                orig, mine, ln = orig + blame[f][ln - 1], mine + (not blame[f][ln - 1]), ln + 1
            elif not l.startswith("+"):
                ln += 1
        if not orig or mine:
            return f"{sid}: changes {orig} original lines and {mine} of ours"
        r = ns(w, "bash /opt/vp/build.sh")
        if r.returncode != 0 or "FAILED" in r.stdout:
            return f"{sid}: does not build\n{r.stdout[-2000:]}"
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = tests(w)
        if len(got) < 31 or not want <= got:
            return f"{sid}: tests fail: {sorted(want - got)[:10]} ({len(got)} passed)"
        outs = []
        for _ in range(2):
            r = ns(w, f"bash {d}/demo.sh")
            outs.append(r.stdout)
            if r.returncode == 0:
                return f"{sid}: demo passes with the change\n{r.stdout[-1000:]}"
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(os.path.join(d, "__pycache__"), ignore_errors=True)
        dst = os.path.join(V, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return f"{sid}: kept ({outs[0].strip().splitlines()[-1][:150] if outs[0].strip() else '(silent)'})" + "\n" + check(sid)
    finally:
        shutil.rmtree(w, ignore_errors=True)


NOTE = threading.Lock()


def note(sid, pid, caught):
    """Remember what catches what (for DESIGN.md)."""
    f = os.path.join(V, "tools", "caught.json")
    with NOTE:
        d = json.load(open(f)) if os.path.exists(f) else {}
        have = set(x for x in d.get(sid, "").split(", ") if x and x != "nothing")
        have = (have | {pid}) if caught else (have - {pid})
        d[sid] = ", ".join(sorted(have)) or "nothing"
        with open(f, "w") as o:
            json.dump(d, o, indent=1, sort_keys=True)
            o.write("\n")


def check(sid, pid=None):
    m = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
    pid = pid or m["property"]
    w = scratch()
    try:
        r = sh(["git", "apply", os.path.join(V, "seeded", sid, "patch.diff")], cwd=w + "/repo")
        if r.returncode:
            return f"{sid}: patch does not apply {r.stdout}"
        if not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
            return f"{sid}: no check for {pid} yet"
        r = ns(w, f"cp -a {V} {w}/verif && mount --bind {w}/verif {V} && cd {V} && timeout 900 python3 check.py {pid}",
               env={"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "NSCA_CACHE": w + "/cache"})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        note(sid, pid, bool(v) and r.returncode == 1)
        return f"{sid}: {pid} -> {r.returncode} {'CAUGHT' if v and r.returncode == 1 else 'MISSED'}: " + r.stdout.strip()[:300]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    import concurrent.futures
    a = sys.argv[1:]
    fn = make
    if a and a[0] == "--against":      # --against C04 ID...: another property's check
        a, fn = a[2:], lambda sid, pid=a[1]: check(sid, pid)
    if a and a[0] == "--check":
        a, fn = a[1:] or sorted(os.listdir(os.path.join(V, "seeded"))), check
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(fn, a):
            print(r, flush=True)
