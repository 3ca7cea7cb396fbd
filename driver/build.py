"""Builds the simulation programs from /repo's current working tree."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
OUT = os.path.join(VERIF, "build")

CXX = "g++"
# the code under test: the project's own language level, function-entry/exit
# instrumentation as the step counter and preemption point
SUT = ["-std=c++11", "-g", "-DLOG_LEVEL=0", "-finstrument-functions", "-w"]
SIMF = ["-std=c++17", "-g", "-O2", "-w"]
VARIANTS = {
    "plain": (["-O1"], []),
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
              "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"]),
    # calls of __tsan_* around memory accesses, answered by sim/rt.cpp: the
    # accesses to memory that threads share become preemption points
    "mem": (["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"], []),
}
PROGS = {"props": ["rt.cpp", "spec.cpp", "scen.cpp", "props.cpp"],
         "api": ["rt.cpp", "spec.cpp", "scen.cpp", "api.cpp"],
         "objs": ["rt.cpp", "spec.cpp", "scen.cpp", "objs.cpp"]}


class BuildError(Exception):
    pass


def _walk(d):
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            yield os.path.join(root, f)


def sources():
    """every file of the library and the tool (tests are not part of the system)"""
    src = os.path.join(REPO, "src")
    r = []
    for d in ("libcatnip", "tools"):
        for f in _walk(os.path.join(src, d)):
            if f.endswith((".cpp", ".hpp", ".h", ".in", ".cc", ".tpp", ".ipp")) and not f.endswith("calcJconfig.hpp"):
                r.append(f)
    return r


def _key():
    h = hashlib.sha256()
    for f in sources() + [os.path.join(REPO, "CMakeLists.txt")] + list(_walk(SIM)) + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _config(dst):
    """what cmake's configure_file makes of calcJconfig.hpp.in"""
    tpl = os.path.join(REPO, "src/libcatnip/calcJconfig.hpp.in")
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        cm = f.read()
    val = {}
    for m in re.finditer(r'set\s*\(\s*(calcJ_\w+)\s+("(?:\\.|[^"\\])*"|[^\s)]+)\s*\)', cm):
        v = m.group(2)
        if v.startswith('"'):
            v = re.sub(r"\\(.)", r"\1", v[1:-1])
        val[m.group(1)] = v
    with open(tpl) as f:
        t = f.read()
    t = re.sub(r"@(\w+)@", lambda m: val.get(m.group(1), ""), t)
    with open(os.path.join(dst, "libcatnip", "calcJconfig.hpp"), "w") as f:
        f.write(t)


def build(prog="props", variant="plain", quiet=True):
    """returns the path of the built program"""
    key = _key()
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, key)
    exe = os.path.join(final, prog + "-" + variant)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # old builds go
        olds = sorted((os.path.join(OUT, d) for d in os.listdir(OUT) if len(d) == 20), key=os.path.getmtime)
        for d in olds[:-3]:
            if d != final:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(final, exist_ok=True)
        src = os.path.join(final, "src")
        if not os.path.isdir(src):
            tmp = src + ".tmp%d" % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            base = os.path.join(REPO, "src")
            for f in sources():
                d = os.path.join(tmp, os.path.relpath(f, base))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(f, d)
            _config(tmp)
            os.rename(tmp, src)
        opt, link = VARIANTS[variant]
        od = os.path.join(final, "o-" + variant)
        os.makedirs(od, exist_ok=True)
        jobs, sut, tool, simo = [], [], [], []
        for f in _walk(src):
            if not f.endswith((".cpp", ".cc")):
                continue
            rel = os.path.relpath(f, src)
            o = os.path.join(od, "sut_" + rel.replace("/", "_") + ".o")
            if not os.path.exists(o):
                jobs.append(("sut", f, o, [CXX] + SUT + opt + ["-I", os.path.join(src), "-I", os.path.join(src, "libcatnip"), "-c", f, "-o", o + ".t"]))
            (tool if rel.startswith("tools") else sut).append(o)
        need = PROGS[prog]
        for f in need:
            o = os.path.join(od, "sim_" + f + ".o")
            inc = ["-I", src] if f in ("api.cpp", "objs.cpp", "props.cpp") else []
            if not os.path.exists(o):
                san = [x for x in opt if x.startswith("-fsanitize") or x.startswith("-fno-san")]
                if variant == "asan":  # the simulator itself only needs to know
                    san = ["-fsanitize=address"]
                if variant == "mem":
                    san = ["-DSIM_MEM"]
                jobs.append(("sim", f, o, [CXX] + SIMF + san + inc + ["-c", os.path.join(SIM, f), "-o", o + ".t"]))
            simo.append(o)

        def one(j):
            _run(j[3])
            if j[0] == "sut" and "/tools/" in j[1]:
                _run(["objcopy", "--redefine-sym", "main=calcj_main", j[2] + ".t"])
            os.rename(j[2] + ".t", j[2])
        with cf.ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(one, j) for j in jobs]:
                r.result()
        objs = simo + sut + (tool if prog == "props" else [])
        _run([CXX] + link + ["-rdynamic", "-o", exe + ".t"] + objs + ["-ldl", "-lpthread"])
        os.rename(exe + ".t", exe)
        # older entries are sorted by time of use
        os.utime(final)
    return exe


if __name__ == "__main__":
    t0 = time.time()
    try:
        for a in sys.argv[1:] or ["props-plain"]:
            p, v = a.split("-")
            print(build(p, v))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1f s" % (time.time() - t0))
