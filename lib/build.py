"""Builds the library, the drivers and the Java helpers from /repo's current tree into /verif/.cache."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EANTIC_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class BuildError(Exception):
    pass


def sources():
    lib = os.path.join(REPO, "libeantic")
    cs = sorted(glob.glob(lib + "/src/**/*.c", recursive=True))
    cx = sorted(glob.glob(lib + "/srcxx/**/*.cpp", recursive=True))
    hs = sorted(set(glob.glob(lib + "/src/**/*.h", recursive=True) + glob.glob(lib + "/srcxx/**/*.h*", recursive=True)
                    + glob.glob(lib + "/e-antic/**/*.h*", recursive=True) + glob.glob(lib + "/e-antic/*.in")))
    hs = [h for h in hs if os.path.isfile(h)]
    return cs, cx, hs


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as g:
            h.update(g.read())
    return h.hexdigest()[:24]


def sh(cmd, cwd=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd)[:400] + "\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout.decode(errors="replace")


VARIANTS = {
    "plain": (["-g", "-O1"], []),
    "asan": (["-g", "-O1", "-fsanitize=address,null,alignment,bounds,return", "-fno-sanitize-recover=null,alignment,bounds,return", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"]),
    "tsan": (["-g", "-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # instrumented for the schedule exploring runtime in drv/mt.cpp
    "mt": (["-g", "-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"], ["-rdynamic"]),
    "shared": (["-g", "-O1", "-fPIC"], []),
}


def build(variant="plain", programs=("drv",)):
    """builds the library and programs of drv/ from the current tree; returns {program: path}, "lib": dir"""
    cflags, lflags = VARIANTS[variant]
    cs, cx, hs = sources()
    drvsrc = [os.path.join(VERIF, "drv", p + ".cpp") for p in programs]
    key = digest(cs + cx + hs, variant + repr(cflags) + open(__file__).read())
    d = os.path.join(CACHE, "lib-%s-%s" % (variant, key))
    os.makedirs(CACHE, exist_ok=True)
    exes = {p: os.path.join(d, "%s-%s" % (p, digest([src] + sorted(glob.glob(VERIF + "/drv/*.h*"))))) for p, src in zip(programs, drvsrc)}
    res = dict(exes, lib=d)
    have = os.path.exists(os.path.join(d, "done"))
    if have and all(os.path.exists(x) for x in exes.values()):
        return res
    tmp = tempfile.mkdtemp(dir=CACHE)
    inc = prepare_includes(d if have else tmp)
    jobs = []
    if not have:
        for f in cs:
            jobs.append(["gcc", "-std=gnu11"] + cflags + ["-w", "-DBUILD_LIBEANTIC"] + inc + ["-c", f, "-o", os.path.join(tmp, f.replace("/", "_") + ".o")])
        for f in cx:
            jobs.append(["g++", "-std=c++17"] + cflags + ["-w", "-DBUILD_LIBEANTIC"] + inc + ["-c", f, "-o", os.path.join(tmp, f.replace("/", "_") + ".o")])
    todo = [p for p in programs if not os.path.exists(exes[p])]
    for p in todo:
        jobs.append(["g++", "-std=c++17"] + (["-g", "-O1", "-DUNDER_TSAN"] if variant in ("mt", "tsan") else cflags + ["-O0"]) + ["-w"] + inc + ["-c", os.path.join(VERIF, "drv", p + ".cpp"), "-o", os.path.join(tmp, p + ".po")])
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]) * (3 if j[-3].endswith("pp") else 1))
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, jobs))
        if not have:
            objs = sorted(glob.glob(tmp + "/*.o"))
            if variant == "shared":
                cxx = [o for o in objs if o.endswith(".cpp.o")]
                cc = [o for o in objs if o.endswith(".c.o")]
                sh(["g++", "-shared", "-Wl,-soname,libeantic.so.3", "-o", tmp + "/libeantic.so.3"] + cc + ["-lflint", "-lgmp", "-lmpfr"])
                sh(["g++", "-shared", "-Wl,-soname,libeanticxx.so.3", "-o", tmp + "/libeanticxx.so.3"] + cxx + [tmp + "/libeantic.so.3", "-lflint", "-lgmpxx", "-lgmp", "-Wl,-rpath,$ORIGIN"])
                for n in ("libeantic.so", "libeanticxx.so"):
                    os.symlink(n + ".3", os.path.join(tmp, n))
            else:
                sh(["ar", "rcs", tmp + "/libe.a"] + objs)
            for o in objs:
                os.unlink(o)
        lib = (d if have else tmp) + "/libe.a"
        for p in todo:
            sh(["g++"] + [os.path.join(tmp, p + ".po"), lib, "-lflint", "-lgmpxx", "-lgmp", "-lmpfr", "-lpthread", "-ldl"] + lflags + ["-o", os.path.join(tmp, p)])
            if have:
                os.replace(os.path.join(tmp, p), exes[p])
            else:
                os.rename(os.path.join(tmp, p), os.path.join(tmp, os.path.basename(exes[p])))
        for o in glob.glob(tmp + "/*.po"):
            os.unlink(o)
        if not have:
            open(os.path.join(tmp, "done"), "w").close()
            try:
                os.rename(tmp, d)
            except OSError:  # another run was faster
                for x in exes.values():
                    if not os.path.exists(x):
                        os.replace(os.path.join(tmp, os.path.basename(x)), x)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def python():
    """what the Python interface needs: (command, environment)"""
    d = build("shared", programs=())["lib"]
    so = os.path.join(d, "pyobs-%s.so" % digest([os.path.join(VERIF, "drv", f) for f in ("pyobs.cpp", "json.hpp")]))
    if not os.path.exists(so):
        t = so + ".%d" % os.getpid()
        sh(["g++", "-std=c++17", "-g", "-O1", "-w", "-fPIC", "-shared", "-I%s/gen" % d, "-I%s/gen/e-antic" % d, os.path.join(VERIF, "drv", "pyobs.cpp"), "-o", t,
            "-L" + d, "-leanticxx", "-leantic", "-lflint", "-lgmpxx", "-lgmp", "-Wl,-rpath," + d])
        os.rename(t, so)
    env = {"PYOBS": so, "LD_LIBRARY_PATH": d, "PYTHONPATH": os.path.join(REPO, "pyeantic", "src"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "1",
           "EXTRA_CLING_ARGS": "-Wno-macro-redefined -I%s/gen -I%s/gen/e-antic" % (d, d)}
    return ["/opt/vp/venv/bin/python", os.path.join(VERIF, "drv", "pydrv.py")], env


def prepare_includes(d):
    """a private include directory: headers of the tree, with the generated ones"""
    g = os.path.join(d, "gen")
    if not os.path.exists(g):
        os.makedirs(g)
        t = open(os.path.join(REPO, "libeantic/e-antic/local.h.in")).read().replace("@libdir@", "/usr/local/lib")
        e = os.path.join(g, "e-antic")
        shutil.copytree(os.path.join(REPO, "libeantic/e-antic"), e)
        open(os.path.join(e, "local.h"), "w").write(t)
        open(os.path.join(e, "config.generated.h"), "w").write("")
    return ["-I" + g, "-I" + os.path.join(g, "e-antic")]


def java():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    d = os.path.join(CACHE, "cls-" + digest(src))
    if not os.path.exists(os.path.join(d, "done")):
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=CACHE)
        sh(["javac", "-cp", TLAJAR, "-d", tmp] + src)
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def prune(keep=12):
    """keep the cache small"""
    ds = sorted(glob.glob(os.path.join(CACHE, "lib-*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    print(java())
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
