#!/usr/bin/env python3
"""Builds /repo's current working tree (and the harnesses) outside /repo.

Objects are cached in /verif/.cache under a key made of the source text, all header
text, the compiler flags and the compiler version; nothing depends on the cache being
there.  Sources are found by globbing, so added or renamed files are picked up.
"""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NSCA_REPO", "/repo")
CACHE = os.environ.get("NSCA_CACHE", os.path.join(VERIF, ".cache"))
H = os.path.join(VERIF, "harness")

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
        "-fno-omit-frame-pointer", "-g", "-O1"]
VARIANTS = {
    "plain": dict(cc="gcc", flags=["-O2", "-g"], link=[]),
    "asan": dict(cc="gcc", flags=ASAN, link=["-fsanitize=address,undefined"]),
    "asan-noaio": dict(cc="gcc", flags=ASAN, link=["-fsanitize=address,undefined"], noaio=True),
    "noaio": dict(cc="gcc", flags=["-O2", "-g"], link=[], noaio=True),
    "msan": dict(cc="clang", flags=["-fsanitize=memory", "-fsanitize-memory-track-origins", "-g", "-O1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"], link=["-fsanitize=memory"]),
    # The replacements shipped for systems that lack some functions.
    "rpl": dict(cc="gcc", flags=["-O2", "-g", "-U_FORTIFY_SOURCE"], link=[], cfg="rpl"),
    "rpl-asan": dict(cc="gcc", flags=ASAN + ["-U_FORTIFY_SOURCE"], link=["-fsanitize=address,undefined"], cfg="rpl"),
    "rpl-msan": dict(cc="clang", flags=["-fsanitize=memory", "-fsanitize-memory-track-origins", "-g", "-O1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"], link=["-fsanitize=memory"], cfg="rpl"),
    "rplmin-asan": dict(cc="gcc", flags=ASAN + ["-U_FORTIFY_SOURCE"], link=["-fsanitize=address,undefined"], cfg="rplmin"),
    "tsan": dict(cc="gcc", flags=["-fsanitize=thread", "-g", "-O1"], link=["-fsanitize=thread"]),
}


class BuildError(Exception):
    pass


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_ver = {}


def ccver(cc):
    if cc not in _ver:
        _ver[cc] = subprocess.run([cc, "--version"], capture_output=True).stdout
    return _ver[cc]


def headers():
    pats = ["src/*/*.h", "lib/*.h", "lib/*/*.h"]
    fs = sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p)))
    return fs + [os.path.join(H, "config", "config.h")]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


_hd = {}


def header_digest():
    if REPO not in _hd:
        _hd[REPO] = digest(*[x for f in headers() for x in (os.path.relpath(f, "/"), rd(f))])
    return _hd[REPO]


def run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(f"{what} failed: {' '.join(cmd)}\n{r.stderr[-4000:]}")


REPLACED = "VSNPRINTF SNPRINTF VASPRINTF ASPRINTF STRDUP STRCASECMP STRNCASECMP DAEMON".split()


def cfg_dir(v):
    """config.h for a variant."""
    kind = v.get("cfg") or ("noaio" if v.get("noaio") else None)
    if not kind:
        return os.path.join(H, "config")
    d = os.path.join(CACHE, "config-" + kind)
    txt = rd(os.path.join(H, "config", "config.h")).decode()
    if kind == "noaio":
        drop = ["HAVE_POSIX_AIO", "HAVE_AIO_INIT"]
        txt = "".join(l for l in txt.splitlines(True) if not l.startswith(tuple(f"#define {x} " for x in drop)))
    else:
        drop = ["HAVE_" + x for x in REPLACED]
        txt = "".join(l for l in txt.splitlines(True) if not l.startswith(tuple(f"#define {x} " for x in drop)))
        txt += "".join(f"#define {x} rpl_{x}\n" for x in ("vsnprintf", "snprintf", "vasprintf", "asprintf"))
        have = "PATHS_H STDDEF_H PTRDIFF_T UINTPTR_T UINTMAX_T INTMAX_T INTTYPES_H STDINT_H LONG_LONG_INT UNSIGNED_LONG_LONG_INT"
        if kind == "rpl":
            have += " VA_COPY LONG_DOUBLE LOCALE_H LOCALECONV STRUCT_LCONV_DECIMAL_POINT STRUCT_LCONV_THOUSANDS_SEP"
        else:
            have += " __VA_COPY"
        for x in have.split():
            txt += f"#undef HAVE_{x}\n#define HAVE_{x} 1\n"
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or rd(p).decode() != txt:
        put(p, txt.encode())
    return d


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os.rename(tmp, path)


def defs():
    r = REPO
    return ["-DHAVE_CONFIG_H", '-DSYSCONFDIR="/proc/self/cwd/etc"', '-DLOCALSTATEDIR="/nonexistent/var"',
            '-DNSCA_VERSION="1.7-verif"',
            f"-I{r}/src/common", f"-I{r}/lib", f"-I{r}/lib/ev", f"-I{r}/lib/pidfile"]


def compile_obj(src, variant, extra=()):
    v = VARIANTS[variant]
    cfg = cfg_dir(v)
    flags = v["flags"] + ["-w", "-fPIC", f"-I{cfg}"] + defs() + list(extra) + [f"-I{os.path.dirname(src)}"]
    key = [rd(src), header_digest(), rd(os.path.join(cfg, "config.h")), " ".join(flags).replace(REPO, "@"), ccver(v["cc"]), os.path.relpath(src, REPO)]
    if os.path.basename(src) == "ev.c":
        for f in sorted(glob.glob(os.path.join(os.path.dirname(src), "ev_*.c"))):
            key.append(rd(f))
    out = os.path.join(CACHE, "obj", digest(*key) + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}.{digest(src)[:6]}.tmp.o"
        run([v["cc"], *flags, "-c", src, "-o", tmp], f"compiling {src}")
        os.rename(tmp, out)
    return out


def compile_all(srcs, variant, extra=()):
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # ev.c is by far the slowest: first
        order = sorted(srcs, key=lambda s: not s.endswith("ev.c"))
        objs = dict(zip(order, ex.map(lambda s: compile_obj(s, variant, extra), order)))
    return [objs[s] for s in srcs]


def link(objs, variant, libs, name, shared=False):
    v = VARIANTS[variant]
    key = digest(*[os.path.basename(o) for o in objs], *libs, " ".join(v["link"]), name, str(shared))
    out = os.path.join(CACHE, "bin", key, name)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}.tmp"
        run([v["cc"], *v["link"], *(["-shared"] if shared else []), "-o", tmp, *objs, *libs, "-ldl", "-lpthread"],
            f"linking {name}")
        os.rename(tmp, out)
    return out


def g(*pats):
    return sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p)))


def common_sources():
    return g("src/common/*.c", "lib/wrappers.c", "lib/progname.c", "lib/ev/ev.c")


def replacements(variant):
    """Sources of the replacement functions, if the variant uses them."""
    if not str(VARIANTS[variant].get("cfg")).startswith("rpl"):
        return []
    return g("lib/xprintf.c", "lib/strdup.c", "lib/strcasecmp.c", "lib/strncasecmp.c", "lib/daemon.c")


def server(variant="asan"):
    srcs = common_sources() + replacements(variant) + g("src/server/*.c", "lib/pidfile/pidfile.c", "lib/pidfile/flopen.c")
    srcs += [os.path.join(H, "mon.c"), os.path.join(H, "pskshim.c")]
    objs = compile_all(srcs, variant, [f"-I{REPO}/src/server"])
    return link(objs, variant, ["-lssl", "-lcrypto", "-lconfuse", "-lsystemd", "-lm", "-rdynamic"], "nsca-ng")


def client(variant="asan"):
    srcs = common_sources() + replacements(variant) + g("src/client/*.c") + [os.path.join(H, "pskshim.c")]
    objs = compile_all(srcs, variant, [f"-I{REPO}/src/client"])
    return link(objs, variant, ["-lssl", "-lcrypto", "-lm", "-rdynamic"], "send_nsca")


def harness(name, repo_srcs, variant, extra=(), libs=("-lssl", "-lcrypto", "-lm")):
    """A C harness of /verif/harness linked with some of /repo's sources."""
    srcs = [os.path.join(H, name)] + [os.path.join(REPO, s) for s in repo_srcs]
    objs = compile_all(srcs, variant, list(extra))
    return link(objs, variant, list(libs), os.path.splitext(name)[0])


def rplcheck(variant):
    """harness/rplcheck.c with the replacement functions (renamed) and the helpers."""
    ren = [f"-D{x}=rpl_{x}" for x in ("strdup", "strcasecmp", "strncasecmp", "daemon")]
    objs = compile_all([os.path.join(H, "rplcheck.c")], variant, ["-D_GNU_SOURCE", "-fno-builtin"])
    objs += compile_all(g("lib/xprintf.c"), variant)
    objs += compile_all(g("lib/strdup.c", "lib/strcasecmp.c", "lib/strncasecmp.c", "lib/daemon.c"), variant, ren)
    objs += compile_all(common_sources(), variant, ren)
    return link(objs, variant, ["-lssl", "-lcrypto", "-lm"], "rplcheck")


def bindfuzz(lang, variant, name="bindfuzz.c", extra=()):
    """A harness linked with a binding's client.c, with stand-ins for the clock."""
    hd = digest(*[rd(f) for f in g(lang + "/*.h")])
    x = ["-U_FORTIFY_SOURCE", "-Dtime(x)=fz_time(x)", "-Dpoll(a,b,c)=fz_poll(a,b,c)", "-Dselect(a,b,c,d,e)=fz_select(a,b,c,d,e)", f"-DHDRS_{hd}"]
    objs = compile_all(g(lang + "/client.c"), variant, x)
    objs += compile_all([os.path.join(H, name)], variant, ["-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", f"-I{REPO}/{lang}", f"-DHDRS_{hd}", *extra] + (["-DPERL"] if lang == "perl" else []))
    return link(objs, variant, [], f"{os.path.splitext(name)[0]}-{lang}")


def python_ext(variant="plain"):
    """Directory holding nscang.so built from /repo/python."""
    import sysconfig
    inc = sysconfig.get_paths()["include"]
    if not os.path.exists(os.path.join(inc, "Python.h")):
        inc = "/usr/include/python3.12"
    srcs = g("python/*.c")
    hd = digest(*[rd(f) for f in g("python/*.h")])
    objs = compile_all(srcs, variant, [f"-I{inc}", f"-DHDRS_{hd}"])
    so = link(objs, variant, ["-lssl", "-lcrypto"], "nscang.so", shared=True)
    return os.path.dirname(so)


def perl_ext(variant="plain"):
    """blib-like directory holding Net::NSCAng::Client built from /repo/perl."""
    v = VARIANTS[variant]
    cfg = subprocess.run(["perl", "-MConfig", "-MExtUtils::Embed", "-e",
                          "print $Config{privlibexp}, qq(\\n); ccopts"], capture_output=True, text=True)
    privlib, ccopts = cfg.stdout.split("\n", 1)
    ccopts = ccopts.split()
    files = [f for f in g("perl/*", "perl/lib/Net/*", "perl/lib/Net/NSCAng/*") if os.path.isfile(f)]
    key = digest("perl2", variant, " ".join(v["flags"]), " ".join(ccopts), *[x for f in files for x in (os.path.relpath(f, REPO), rd(f))])
    out = os.path.join(CACHE, "perl", key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        pd = os.path.join(tmp, "src")
        os.makedirs(pd)
        for f in files:
            rel = os.path.relpath(f, os.path.join(REPO, "perl"))
            os.makedirs(os.path.dirname(os.path.join(pd, rel)), exist_ok=True)
            shutil.copy(f, os.path.join(pd, rel))
        xs = subprocess.run(["perl", os.path.join(privlib, "ExtUtils", "xsubpp"), "-typemap",
                             os.path.join(privlib, "ExtUtils", "typemap"), "-typemap", "typemap", "Client.xs"],
                            capture_output=True, text=True, cwd=pd)
        if xs.returncode != 0:
            raise BuildError("xsubpp failed: " + xs.stderr)
        with open(os.path.join(pd, "Client_xs.c"), "w") as f:
            f.write(xs.stdout)
        m = re.search(r"VERSION\s*=\s*(?:qv\()?['\"]([^'\"]+)", rd(os.path.join(REPO, "perl/lib/Net/NSCAng/Client.pm")).decode())
        ver = m.group(1) if m else "v2.0.0"
        objs = []
        jobs = []
        for c in sorted(glob.glob(os.path.join(pd, "*.c"))):
            o = c[:-2] + ".o"
            objs.append(o)
            jobs.append([v["cc"], *v["flags"], "-w", "-fPIC", *ccopts, f'-DVERSION="{ver}"', f'-DXS_VERSION="{ver}"',
                         f"-I{pd}", "-c", c, "-o", o])
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda j: run(j, "compiling the Perl module"), jobs))
        auto = os.path.join(tmp, "lib", "auto", "Net", "NSCAng", "Client")
        os.makedirs(auto)
        shutil.copytree(os.path.join(pd, "lib", "Net"), os.path.join(tmp, "lib", "Net"))
        run([v["cc"], *v["link"], "-shared", "-o", os.path.join(auto, "Client.so"), *objs, "-lssl", "-lcrypto"],
            "linking the Perl module")
        os.chmod(tmp, 0o755)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return os.path.join(out, "lib")


def libasan():
    r = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True)
    return os.path.realpath(r.stdout.strip())


def shim(name="syslogshim.c"):
    """A library of /verif/harness to be preloaded."""
    src = os.path.join(H, name)
    out = os.path.join(CACHE, "bin", digest("shim", rd(src), ccver("gcc")), name[:-2] + ".so")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}.tmp"
        run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-U_FORTIFY_SOURCE", "-o", tmp, src, "-ldl"], "building " + name)
        os.rename(tmp, out)
    return out


def _memo(f):
    """Once per process and arguments; processes take turns."""
    import fcntl, functools, threading
    lock, done = threading.Lock(), {}

    @functools.wraps(f)
    def g(*a, **kw):
        k = (a, tuple(sorted(kw.items())))
        with lock:
            if k not in done:
                os.makedirs(CACHE, exist_ok=True)
                with open(os.path.join(CACHE, "lock"), "w") as lf:
                    fcntl.flock(lf, fcntl.LOCK_EX)
                    try:
                        done[k] = f(*a, **kw), None
                    except BuildError as e:
                        done[k] = None, e
            r, e = done[k]
        if e is not None:
            raise e
        return r
    return g


server, client, python_ext, perl_ext, shim, bindfuzz, harness, rplcheck = map(_memo, (server, client, python_ext, perl_ext, shim, bindfuzz, harness, rplcheck))


if __name__ == "__main__":
    import time
    t = time.time()
    for v in ("asan", "plain", "asan-noaio", "noaio"):
        print(server(v))
    for v in ("asan", "plain"):
        print(client(v))
    for v in ("asan", "plain"):
        print(python_ext(v))
        print(perl_ext(v))
    print("built in %.1f s" % (time.time() - t))
