"""Build harnesses from the working tree of the repository.

Every C++ source of the repository (except its main program) is compiled with
the stand-in headers on the include path and collected in a static library; a
harness is linked against it.  Objects are reused only if the content hash of
every file they were built from is unchanged, so the result always reflects the
current working tree.
"""
import hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["include", "libs/include", "back-end/include", "back-end/Exu/include",
       "back-end/Lsu/include", "back-end/tools/include", "MemSubSystem/include",
       "diff/include", "front-end"]
SKIP_DIRS = {"legacy", "baremetal", ".git", "docs", "libs", "tests", "test",
             "build", "GenSimpoint", "axi-interconnect-kit"}
BASE_FLAGS = ["-std=c++2a", "-w", "-DNDEBUG", "-DCONFIG_AXI_LLC_ENABLE=0",
              "-march=x86-64", "-mtune=generic", "-fno-strict-aliasing"]


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha1(f.read()).hexdigest()
    return cache[key]


def repo_sources():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            if not f.endswith(".cpp"):
                continue
            p = os.path.join(d, f)
            if f == "main.cpp":
                continue
            with open(p, errors="replace") as fh:
                t = fh.read()
            if "int main(" in t:
                continue
            out.append(p)
    return out


def parse_deps(dpath):
    with open(dpath) as f:
        t = f.read().replace("\\\n", " ")
    return t.split(":", 1)[1].split()


def compile_one(src, obj, flags):
    meta = obj + ".json"
    cmd = ["g++"] + BASE_FLAGS + flags + ["-I" + os.path.join(VERIF, "standins"),
           "-I" + os.path.join(VERIF, "src")] + \
          ["-I" + os.path.join(REPO, i) for i in INC] + ["-c", src, "-o", obj,
           "-MMD", "-MF", obj + ".d"]
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == cmd and all(sha(p) == h for p, h in m["deps"].items()):
                return True, ""
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for p in (obj, meta):
        if os.path.exists(p):
            os.unlink(p)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return False, r.stderr[-4000:]
    deps = {p: sha(p) for p in parse_deps(obj + ".d")
            if p.startswith(REPO) or p.startswith(VERIF)}
    json.dump({"cmd": cmd, "deps": deps}, open(meta, "w"))
    return True, ""


def objname(variant, src):
    h = hashlib.sha1(src.encode()).hexdigest()[:8]
    return os.path.join(BUILD, variant, os.path.basename(src) + "." + h + ".o")


def _nm(args):
    r = subprocess.run(["nm", "-P"] + args, capture_output=True, text=True)
    return [l.split()[:2] for l in r.stdout.splitlines() if len(l.split()) >= 2]


def undefined(cmd):
    """Symbols a link command leaves open."""
    out = cmd[2] + ".probe"
    probe = ["g++", "-o", out] + [a for a in cmd[3:] if "unresolved-symbols" not in a]
    r = subprocess.run(probe + ["-Wl,--warn-unresolved-symbols,--no-demangle,-z,muldefs"], capture_output=True, text=True)
    if os.path.exists(out):
        os.unlink(out)
    return set(re.findall(r"undefined reference to `([^'@]+)'", r.stderr))


def defined(obj):
    return {n for n, t in _nm(["--defined-only", obj]) if t in "TBDRVWGSC"}


def allowed_open(name, now):
    with open(os.path.join(VERIF, "tools", "open_symbols.json")) as f:
        return set(json.load(f).get(name, []))


def build(name, harness_srcs, variant="std", flags=("-O2",), exclude=(),
          extra_link=(), only=None, standins=True):
    """Compile repo + standins + harness; link to build/<variant>/<name>."""
    flags = list(flags)
    lib_srcs = [s for s in repo_sources()
                if os.path.relpath(s, REPO) not in exclude]
    if only is not None:
        lib_srcs = [s for s in lib_srcs if os.path.relpath(s, REPO) in only]
    if standins:
        lib_srcs += [os.path.join(VERIF, "standins", "axi_kit.cpp"),
                 os.path.join(VERIF, "standins", "refcpu_api.cpp")]
    hs = [os.path.join(VERIF, "src", s) for s in harness_srcs]
    jobs = [(s, objname(variant, s)) for s in lib_srcs + hs]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], flags), jobs))
    bad = [(jobs[i][0], res[i][1]) for i in range(len(jobs)) if not res[i][0]]
    for s, e in bad:
        sys.stderr.write("compile failed: %s\n%s\n" % (s, e))
    if any(s in hs for s, _ in bad):
        raise SystemExit("harness does not compile")
    lib_objs = [o for (s, o), (ok, _) in zip(jobs, res) if ok and s not in hs]
    h_objs = [o for (s, o), (ok, _) in zip(jobs, res) if s in hs]
    lib = os.path.join(BUILD, variant, "librepo.%s.%d.a" % (name, os.getpid()))
    exe = os.path.join(BUILD, variant, name)
    tmp = exe + ".%d" % os.getpid()
    ign = "-Wl,--unresolved-symbols=ignore-all"
    partial = only is not None
    rounds = 0
    while True:
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(["ar", "rcs", lib] + lib_objs, check=True)
        cmd = ["g++", "-o", tmp] + h_objs + [lib, os.path.join(REPO, "libs/softfloat.a"),
               "-lz", "-lpthread"] + list(extra_link)
        if partial:
            cmd += [ign] + (["-Wl,-z,muldefs"] if rounds else [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        open_now = undefined(cmd) if partial else set()
        os.unlink(lib)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:])
            raise SystemExit("link failed: " + name)
        if not partial:
            break
        # A harness takes only the sources of its part; what the rest of the
        # simulator would provide and is never called stays open.  Code that
        # moved to another source file is fetched from there.
        new = open_now - allowed_open(name, open_now)
        if not new or rounds >= 8:
            break
        have = {o for o in lib_objs}
        rest = [(s, objname(variant, s)) for s in repo_sources()]
        rest = [(s, o) for s, o in rest if o not in have]
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            rr = list(ex.map(lambda j: compile_one(j[0], j[1], flags), rest))
        add = [o for (s, o), (ok, _) in zip(rest, rr) if ok and defined(o) & new]
        if not add:
            if ign in extra_link:
                break
            sys.stderr.write("undefined: %s\n" % " ".join(sorted(new)))
            raise SystemExit("link failed: " + name)
        lib_objs += add
        rounds += 1
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
