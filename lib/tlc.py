"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile

import build

SPEC = os.path.join(build.VERIF, "spec")


class ToolError(Exception):
    pass


def run(module, cfg_text, work, env=None, timeout=600, workers=1, heap="1500m", extra=(), files=()):
    """run TLC on spec/<module>.tla with the given configuration text; returns (returncode, output)"""
    d = tempfile.mkdtemp(dir=work)
    cfg = os.path.join(d, "M.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    for t in os.listdir(SPEC):
        if t.endswith(".tla"):
            os.symlink(os.path.join(SPEC, t), os.path.join(d, t))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss400m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:CICompilerCount=2" if workers == 1 else "-Dx=1",
           "-cp", ":".join([build.java(), build.TLAJAR, build.COMM]), "tlc2.TLC", "-config", cfg, "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", *extra, os.path.join(d, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise ToolError("TLC timed out on " + module)
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors="replace")


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def excerpt(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]


TRACE_CFG = """SPECIFICATION TSpec
CONSTANT Focus = "%s"
CONSTANT Strict = %s
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""


def check_trace(path, focus, work, strict=False, module="EAnticTrace", timeout=600):
    """returns (accepted events, total events, message or None, states)"""
    rc, out = run(module, TRACE_CFG % (focus, "TRUE" if strict else "FALSE"), work, {"TRACE": path}, timeout)
    m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', out)
    st = stats(out)
    if m:
        a, n = int(m.group(1)), int(m.group(2))
        if a == n:
            if rc != 0:
                raise ToolError("TLC failed:\n" + excerpt(out))
            return a, n, None, st
        return a, n, "no step of the specification matches event %d" % (a + 1), st
    # an error while evaluating the specification on this trace
    n = sum(1 for _ in open(path))
    if "OutOfMemory" in out or "StackOverflow" in out or "Error:" not in out or "Parsing or semantic analysis failed" in out:
        raise ToolError("TLC failed:\n" + excerpt(out))
    ls = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
    a = (max(ls) - 1) if ls else 0
    msg = "event %d cannot be interpreted: " % (a + 1) + " ".join(re.findall(r"Error: (.*)", out)[:3])[:500]
    return a, n, msg, st
