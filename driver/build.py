"""Builds the simulator and the code under test from /repo's working tree.  Objects are cached by content hash."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CODE = REPO + "/capi/src/implementation/visibility_graphs/code"
LIBS = REPO + "/capi/cpp_libs"
INC = ["-I" + CODE, "-I" + LIBS + "/fmt/include", "-I" + LIBS + "/indicators/include", "-I" + LIBS + "/mio"]
GXX = "/usr/bin/g++"
TSAN = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]
BASE = ["-std=gnu++17", "-O2", "-g1", "-fPIC", "-w"]
PYPY = "/opt/capi/pypy/bin/python"


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


_hc = {}


def _tree_hash(roots, exts):
    key = (tuple(roots), exts)
    if key not in _hc:
        h = hashlib.sha256()
        for r in roots:
            for d, ds, fs in sorted(os.walk(r)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(exts):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(hashlib.sha256(_read(p)).digest())
        _hc[key] = h.hexdigest()
    return _hc[key]


def _compile(src, flags, extra, post=None):
    """Returns the cached object for src; extra is everything besides the source that decides the result."""
    h = hashlib.sha256()
    for x in [src, " ".join(flags), extra, "v4"]:
        h.update(x.encode()); h.update(b"\0")
    h.update(_read(src))
    if post:
        h.update(_read(post))
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.%s.tmp.o" % (os.getpid(), os.path.basename(src))
    _run([GXX] + flags + ["-c", src, "-o", tmp])
    if post:
        _run(["objcopy", "--redefine-syms=" + post, tmp])
    os.rename(tmp, obj)
    return obj


def _string_shim():
    """The library's configuration header with its switch for out-of-line strings turned: their code is then compiled with ours."""
    p = subprocess.run([GXX, "-std=gnu++17", "-x", "c++", "-E", "-"], input="#include <bits/c++config.h>\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    for l in p.stdout.splitlines():
        if l.startswith("# 1 ") and l.split('"')[1].endswith("/bits/c++config.h"):
            text = _read(l.split('"')[1]).decode()
            break
    else:
        return []
    key = "# define _GLIBCXX_EXTERN_TEMPLATE 1"
    if key not in text:
        return []
    d = BUILD + "/shim/bits"
    os.makedirs(d, exist_ok=True)
    text = text.replace(key, "# define _GLIBCXX_EXTERN_TEMPLATE -1")
    if not os.path.exists(d + "/c++config.h") or _read(d + "/c++config.h").decode() != text:
        with open(d + "/c++config.h", "w") as f:
            f.write(text)
    return ["-I" + BUILD + "/shim"]


def build(with_python=False):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(with_python)


def _build(with_python):
    rt = VERIF + "/sim/runtime"
    sc = VERIF + "/sim/scenarios"
    redef = rt + "/redefine.txt"
    repo_hdr = _tree_hash([CODE, LIBS], (".hpp", ".h"))
    rt_hdr = _tree_hash([rt], (".h",))
    sc_hdr = _tree_hash([rt, sc], (".h",))
    repo_src = sorted(glob.glob(CODE + "/**/*.cpp", recursive=True))
    fmt_src = sorted(glob.glob(LIBS + "/fmt/src/*.cc"))
    jobs = []
    # std::string is instantiated here, so that their accesses are seen
    rflags = BASE + ["-fopenmp", ] + TSAN + _string_shim() + INC
    for s in repo_src + fmt_src:
        jobs.append(("repo", s, rflags, repo_hdr, redef))
    for s in sorted(glob.glob(rt + "/*.cpp")):
        fl = ["-std=gnu++17", "-O2", "-g1", "-fPIC", "-w"]
        if s.endswith("io.cpp"):
            fl = fl + ["-fno-delete-null-pointer-checks", "-fno-builtin"]
        jobs.append(("rt", s, fl, rt_hdr, None))
    for s in sorted(glob.glob(sc + "/*.cpp")):
        fl = BASE + INC
        jobs.append(("main" if s.endswith("/main.cpp") else "scen", s, fl, sc_hdr + repo_hdr, None))
    if with_python:
        inc = subprocess.run([PYPY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.split()
        # without call-outs: pybind11's own tables hash object addresses, and their work must not count as simulated steps
        fl = BASE + ["-fopenmp"] + INC + ["-include", "/opt/capi/include/pypy_compat.h", "-fvisibility=hidden"] + ["-I" + i for i in inc]
        jobs.append(("bind", REPO + "/capi/src/implementation/visibility_graphs/bindings.cpp", fl, repo_hdr + ":".join(inc), redef))
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [(j, ex.submit(_compile, j[1], j[2], j[3], j[4])) for j in jobs]
        for j, f in futs:
            res.setdefault(j[0], []).append(f.result())
    h = hashlib.sha256()
    for k in sorted(res):
        for o in res[k]:
            h.update(o.encode())
    h.update(_read(sc + "/exports.map") + _read(sc + "/python.map") + _read(os.path.abspath(__file__)))
    d = os.path.join(BUILD, "bin-" + h.hexdigest()[:24])
    if not os.path.exists(d + "/ok"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _run([GXX, "-shared", "-o", d + "/libsim.so"] + res["rt"] + ["-Wl,--no-as-needed", "-ls2", "-ldl", "-lpthread"])
        common = ["-L" + d, "-lsim", "-ls2", "-lstdc++", "-lm", "-Wl,-rpath,$ORIGIN"]
        # objects of the code under test first: their (instrumented) template instances win
        _run([GXX, "-shared", "-o", d + "/libcapi_sim.so"] + res["repo"] + res["scen"] + ["-Wl,--version-script=" + sc + "/exports.map", "-Wl,-z,defs"] + common)
        _run([GXX, "-o", d + "/simrun"] + ["-Wl,--no-as-needed", "-L" + d, "-lsim"] + res["main"] + ["-lcapi_sim", "-ls2", "-Wl,-rpath,$ORIGIN"])
        if with_python:
            _run([GXX, "-shared", "-o", d + "/_vis_graph.so"] + res["repo"] + res["bind"] + ["-Wl,--version-script=" + sc + "/python.map"] + common)
        open(d + "/ok", "w").close()
    os.utime(d)
    # keep the cache small
    old = sorted(glob.glob(BUILD + "/bin-*"), key=os.path.getmtime)[:-4]
    for o in old:
        shutil.rmtree(o, ignore_errors=True)
    objs = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)[:-300]
    for o in objs:
        os.unlink(o)
    return d


if __name__ == "__main__":
    try:
        print(build("--python" in sys.argv))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
