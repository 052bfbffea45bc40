"""Builds the fact extractor and runs it over /repo's current sources (nothing is executed, only parsed)."""
import fnmatch, hashlib, json, os, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("LV_CACHE", os.path.join(HERE, ".cache"))
TOOLSRC = os.path.join(HERE, "tool", "lvfacts.cpp")
STUB = os.path.join(HERE, "tool", "stub")
WITNESS = os.path.join(HERE, "tool", "witness")


class AnalysisBroken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tool_path():
    h = hashlib.sha256(open(TOOLSRC, "rb").read()).hexdigest()[:16]
    return os.path.join(CACHE, "lvfacts-" + h)


def build_tool():
    out = tool_path()
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    fl = [x for x in shlex.split(sh(["llvm-config-18", "--cxxflags"]).stdout) if not x.startswith("-std=") and x != "-g"]
    tmp = out + ".tmp%d" % os.getpid()
    p = sh(["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-w"] + fl + [TOOLSRC, "-o", tmp,
            "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
    if p.returncode:
        raise AnalysisBroken("cannot build the fact extractor: " + p.stderr[-1500:])
    os.replace(tmp, out)
    return out


def config_key():
    """Everything a configure run depends on: all CMake inputs and *.in templates of the current tree."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build"))
        for f in sorted(files):
            if f == "CMakeLists.txt" or f.endswith((".cmake", ".in")):
                p = os.path.join(base, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(open("/opt/vp/support/configure.sh", "rb").read())
    return h.hexdigest()[:16]


def configure():
    d = os.path.join(CACHE, "cfg-" + config_key())
    if os.path.exists(os.path.join(d, ".ok")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    script = open("/opt/vp/support/configure.sh").read().replace("-S /repo ", "-S %s " % REPO)
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "DISPLAY"):
        env.pop(k, None)
    p = sh(["bash", "-c", script, "configure.sh", "-B", d,
            "-Dgoogletest_BINARY_DIR=%s/3rdparty/googletest/googletest-build" % d,
            "-Dgooglebench_BINARY_DIR=%s/3rdparty/googlebench/googlebench-build" % d], env=env)
    if p.returncode or not os.path.exists(os.path.join(d, "compile_commands.json")):
        raise AnalysisBroken("cannot configure: " + (p.stdout + p.stderr)[-1500:])
    open(os.path.join(d, ".ok"), "w").write("1")
    return d


def to_clang(e, resdir):
    a = shlex.split(e["command"])[1:]
    out, i = [], 0
    while i < len(a):
        x = a[i]
        if x in ("-o", "-c"):
            i += 2
            continue
        if x.startswith(("-march", "-W")) or x in ("-fpermissive", "-w", "-O3", "-pedantic-errors"):
            i += 1
            continue
        out.append(x)
        i += 1
    return out + ["-isystem", STUB, "-march=x86-64-v3", "-Wno-everything", "-ferror-limit=0", "-resource-dir", resdir]


# not part of the build here (needs lz4), and bundled third-party code that only gcc parses
SKIP = ("apps/handannot/", "3rdparty/")
_state = {}


def prepare():
    if not _state:
        with ThreadPoolExecutor(2) as ex:
            t, c = ex.submit(build_tool), ex.submit(configure)
            _state["tool"], _state["cfg"] = t.result(), c.result()
        _state["res"] = sh(["clang++-18", "-print-resource-dir"]).stdout.strip()
        _state["db"] = json.load(open(os.path.join(_state["cfg"], "compile_commands.json")))
    return _state


def extract(patterns, witness=()):
    """patterns: globs relative to the repo; witness: file names in tool/witness. Returns list of (tu, facts dict)."""
    st = prepare()
    jobs = []
    for e in st["db"]:
        f = e["file"]
        if not f.startswith(REPO + "/"):
            continue
        rel = f[len(REPO) + 1:]
        if rel.startswith(SKIP):
            continue
        if any(fnmatch.fnmatch(rel, p) for p in patterns):
            jobs.append((rel, f, to_clang(e, st["res"])))
    base = None
    for e in st["db"]:
        if e["file"].endswith("modules/world/src/world.cpp"):
            base = e
    for w in witness:
        if base is None:
            raise AnalysisBroken("no compile command for the umbrella module")
        jobs.append(("witness/" + w, os.path.join(WITNESS, w), to_clang(base, st["res"])))
    jobs = list({j[0]: j for j in jobs}.values())
    odir = os.path.join(CACHE, "facts-%d-%d" % (os.getpid(), int(time.time() * 1000)))
    os.makedirs(odir)

    def run(j):
        o = os.path.join(odir, j[0].replace("/", "_") + ".json")
        p = sh([st["tool"], o, REPO + ":" + st["cfg"] + ":" + WITNESS, j[1], "--"] + j[2])
        if p.returncode or not os.path.exists(o):
            return j[0], None, p.stderr[-1200:]
        with open(o) as fd:
            d = json.load(fd)
        os.unlink(o)
        return j[0], d, ""
    try:
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(run, jobs))
    finally:
        shutil.rmtree(odir, ignore_errors=True)
    bad = [(n, m) for n, d, m in res if d is None]
    if bad:
        raise AnalysisBroken("translation units that do not parse: " + "; ".join("%s: %s" % b for b in bad))
    return [(n, d) for n, d, _ in res]
