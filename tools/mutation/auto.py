"""auto.py OUT NWORKERS SEED MAX [FILE...]: random simple mutations, checks until one catches; survivors are run through the tests."""
import os, random, re, shutil, subprocess, sys, json, threading, queue, time
OUT, NW, SEED, MAX = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
MAP = {
 "src/server/server.c": "C09 C11 C19 C02 C03 C14 C13 C15 C12 C10",
 "src/server/fifo.c": "C08 C04 C05 C06 C07 C13 C12 C17",
 "src/server/auth.c": "C02 C03 C01 C19 C13",
 "src/server/conf.c": "C16 C02 C01 C13 C17",
 "src/server/hash.c": "C02 C01 C16 C13",
 "src/server/nsca-ng.c": "C16 C17 C20 C21 C19 C13 C18 C15",
 "src/common/tls.c": "C09 C10 C23 C12 C15 C14 C11 C25 C13 C01 C04 C19 C21 C16 C17",
 "src/common/buffer.c": "C30 C10 C13",
 "src/common/log.c": "C19 C18 C13 C21 C16",
 "src/common/util.c": "C09 C22 C31 C13 C16 C24",
 "src/client/client.c": "C22 C23 C25 C24 C09",
 "src/client/conf.c": "C24 C25 C18",
 "src/client/input.c": "C22 C25 C23",
 "src/client/parse.c": "C22 C25",
 "src/client/send_nsca.c": "C24 C22 C25 C23 C18",
 "src/client/auth.c": "C24 C01 C22 C25",
 "lib/xprintf.c": "C31", "lib/strcasecmp.c": "C31", "lib/strncasecmp.c": "C31", "lib/strdup.c": "C31",
 "lib/daemon.c": "C31 C17", "lib/wrappers.c": "C31 C22 C24", "lib/progname.c": "C31 C24",
 "perl/client.c": "C26 C28", "perl/Client.xs": "C26 C28",
 "python/client.c": "C27 C28 C29", "python/nscang.c": "C27 C28 C29",
}
for x in os.listdir("/repo/lib/pidfile"):
    if x.endswith(".c"): MAP["lib/pidfile/" + x] = "C17 C16 C13"
if os.path.isdir("/repo/src/server/../../lib/ev"): pass
only = sys.argv[5:] or list(MAP)

def muts(f):
    src = open("/repo/" + f).read()
    lines = src.split("\n")
    out = []
    incomment = False; skip = 0
    start = 0
    for i, l in enumerate(lines):
        if l.startswith("static") or (re.match(r"^\w+\(.*|^MODULE", l)): start = start or i
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if i < start or not s or s.startswith(("#", "*", "//")) or re.match(r"debug\(|assert\(", s): continue
        if s.endswith(";") and l.startswith(("static", "extern")): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group()), l)
        code = re.sub(r"'(\\.|[^'\\])'", lambda m: "\0" * len(m.group()), code)
        code = re.sub(r"/\*.*?\*/", lambda m: "\0" * len(m.group()), code)
        def sub(a, b, new): out.append((i, l[:a] + new + l[b:]))
        for m in re.finditer(r"(?<![-<>=])(<=|>=|==|!=|<|>)(?![<>=])", code):
            o = m.group()
            if "#include" in l: continue
            alts = {"<": ["<="], ">": [">="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]
            for a in alts: sub(m.start(), m.end(), a)
        for m in re.finditer(r"&&|\|\|", code):
            sub(m.start(), m.end(), "||" if m.group() == "&&" else "&&")
        for m in re.finditer(r"(?<![\w.])(\d+)(?:\.0)?(?![\w.])", code):
            n = int(m.group(1))
            sub(m.start(1), m.end(1), str(n + 1))
            if n > 0: sub(m.start(1), m.end(1), str(n - 1))
        for m in re.finditer(r" ([+-]) (?=\w)", code):
            sub(m.start(1), m.end(1), "-" if m.group(1) == "+" else "+")
        for m in re.finditer(r"(?<![=!<>+\-*/&|])([+-])= ", code): pass
        for m in re.finditer(r"\b(true|false)\b", code):
            sub(m.start(), m.end(), "false" if m.group() == "true" else "true")
        if re.match(r"[\w>.\-\[\]*()]+(\(| = |\+\+|--).*;$", s) and not re.match(r"(return|else|if|for|while|char|int|size_t|const|struct|static|unsigned|long|va_list)\b", s):
            prev = next((lines[j].strip() for j in range(i - 1, 0, -1) if lines[j].strip()), "")
            if prev.endswith((";", "{", "}", ":", "*/")): out.append((i, "/* gone */;"))
        if s in ("break;",): out.append((i, l.replace("break;", ";")))
        if s == "continue;": out.append((i, l.replace("continue;", ";")))
        if s.startswith("return ") and not s.startswith("return ("):
            pass
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{)?$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            a, b = m.start(2), m.end(2)
            out.append((i, l[:a] + "!(" + l[a:b] + ")" + l[b:]))
    return src, lines, out

rng = random.Random(SEED)
jobs = []
for f in only:
    src, lines, ms = muts(f)
    for i, new in ms: jobs.append((f, i, lines[i], new))
rng.shuffle(jobs)
if os.environ.get("COUNT"):
    from collections import Counter
    print(Counter(j[0] for j in jobs)); sys.exit()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["f"], d["line"], d["new"]))
# stratify: at most MAX per file
cnt = {}
sel = []
for j in jobs:
    if (j[0], j[1] + 1, j[3].strip()) in done: continue
    if cnt.get(j[0], 0) < MAX: sel.append(j); cnt[j[0]] = cnt.get(j[0], 0) + 1
print(len(jobs), "possible,", len(sel), "selected", flush=True)
Q = queue.Queue()
for j in sel: Q.put(j)
L = threading.Lock()

def sh(cmd, t=900, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)
    except subprocess.TimeoutExpired as x: return subprocess.CompletedProcess(cmd, 124, "TIMEOUT")

def worker(k):
    w = "/tmp/am-%d-%d" % (SEED, k)
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh(["cp", "-a", "/repo", w]); sh(["cp", "-a", "/verif", w])
    def ns(script, t=900):
        return sh(["unshare", "-mnpf", "--kill-child", "--mount-proc", "bash", "-c", f"ip link set lo up; mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && {script}"], t,
            env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", "NSCA_CACHE": w + "/cache"})
    while True:
        try: f, i, old, new = Q.get_nowait()
        except queue.Empty: break
        t0 = time.time()
        p = f"{w}/repo/{f}"
        orig = open("/repo/" + f).read()
        lines = orig.split("\n"); lines[i] = new
        res = {"f": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "by": None, "log": []}
        open(p, "w").write("\n".join(lines))
        ok = True
        if f.startswith(("src/", "lib/")):
            r = sh(["gcc", "-fsyntax-only", "-w", "-DHAVE_CONFIG_H", "-I" + w + "/repo/_build", "-I" + w + "/repo/lib", "-I" + w + "/repo/src/common", "-I" + w + "/repo/lib/pidfile", "-I" + w + "/repo/lib/ev", p])
            if r.returncode and " error: " in r.stdout and "No such file" not in r.stdout: ok = False; res["by"] = "uncompilable"
        if ok:
            if f.startswith("src/"):
                r = ns("cd /repo && bash /opt/vp/build.sh", 300)
                if r.returncode or "FAILED" in r.stdout: res["tests"] = "nobuild"; ok = False; res["by"] = "nobuild"
                else:
                    ns(f"rm -f {w}/o.json; bash /opt/vp/test.sh {w}/o.json", 300)
                    try: n = len(json.load(open(f"{w}/o.json"))["passed"])
                    except Exception: n = -1
                    res["tests"] = n
                    if n != 31: ok = False; res["by"] = "tests"
        if ok:
            for c in MAP[f].split():
                r = ns(f"cd /verif && timeout 600 python3 check.py {c}", 700)
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                if r.returncode == 1 and v: res["by"] = c; res["log"].append(r.stdout.strip()[:400]); break
                if r.returncode != 0: res["log"].append(f"{c} rc={r.returncode} {r.stdout[-300:]}"); res["by"] = "noanswer " + c; 
                if r.returncode != 0: break
        open(p, "w").write(orig)
        shutil.rmtree(w + "/cache", ignore_errors=True) if rng.random() < .1 else None
        res["t"] = round(time.time() - t0, 1)
        with L:
            open(OUT, "a").write(json.dumps(res) + "\n")
            if res["by"] is None or str(res["by"]).startswith("noanswer"): print("SURVIVED" if res["by"] is None else res["by"], res.get("tests"), f, i + 1, "|", res["old"], "=>", res["new"], flush=True)
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", flush=True)
