"""C10: all schedules (with a bounded number of preemptions) of programs enumerated by TLC, executed in the real
code, and checked for linearizability against spec/Registry.tla; model checking of the locking protocol; several
threads that each run a script of their own, validated against spec/EAntic.tla."""
import json
import os
import random
import re
import subprocess
import time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

import build
import gen
import polys
import tlc

PROGRAMS = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nMaxLen3 = %d\nMaxTotal = %d\n"
PROTOCOL = ("SPECIFICATION Spec\nCONSTANTS Fields = {%s}\nObjs = {%s}\nThreads = {%s}\nMaxHandles = %d\nProtocol = \"%s\"\n"
            "INVARIANTS NoBadAccess NoLeak NoDeadlock UniqueParents AliveWhileUsed\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n")
REGISTRY = ("SPECIFICATION RSpec\nCONSTANTS Fields = {\"A\", \"B\"}\nObjs = {1, 2, 3, 4}\nMaxHandles = 2\n"
            "INVARIANTS UniqueParents AliveWhileUsed Registered\nCONSTRAINT Small\nCHECK_DEADLOCK FALSE\n")
TRACE = ("SPECIFICATION TSpec\nCONSTANTS Fields = {\"A\", \"B\", \"Q\"}\nObjs <- TObjs\nCONSTRAINT Reached\n"
         "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")


def programs(ctx, a, b, c):
    rc, out = tlc.run("RegistryPrograms", PROGRAMS % (a, b, c), ctx.work)
    if rc:
        raise tlc.ToolError("TLC failed:\n" + tlc.excerpt(out))
    ps = []
    text = out.replace("\n", " ")
    for m in re.finditer(r'<<"PROGRAM",\s*<<(.*?)>>\s*>>\s*>>', text):
        th = re.findall(r"<<([^<>]*)>>?", m.group(1) + ">>")
        ps.append("/".join("".join(re.findall(r'"(\w)"', t)) for t in th))
    return sorted(set(ps))


def protocol(ctx):
    """the locking protocol refines Registry; without the lock it does not"""
    rc, out = tlc.run("RegistryMC", REGISTRY, ctx.work, workers=2)
    if rc:
        raise tlc.ToolError("Registry.tla: " + tlc.excerpt(out))
    ctx.states += tlc.stats(out)[1]
    ctx.transitions += tlc.stats(out)[0]
    cases = [('"A", "B"', "1, 2, 3, 4", "1, 2", 2)]
    if ctx.thorough:
        cases += [('"A"', "1, 2, 3, 4", "1, 2, 3", 2), ('"A", "B"', "1, 2, 3, 4, 5", "1, 2, 3", 1)]
    for f, o, t, n in cases:
        rc, out = tlc.run("RegistryProtocol", PROTOCOL % (f, o, t, n, "locked"), ctx.work, workers=8, heap="8g", timeout=1500)
        if rc:
            raise tlc.ToolError("RegistryProtocol.tla: " + tlc.excerpt(out))
        ctx.states += tlc.stats(out)[1]
        ctx.transitions += tlc.stats(out)[0]
        ctx.exhaustive.append("RegistryProtocol refines Registry: fields {%s}, objects {%s}, threads {%s}, up to %d handles each: %d states" % (f, o, t, n, tlc.stats(out)[1]))
    rc, out = tlc.run("RegistryProtocol", PROTOCOL % ('"A"', "1, 2, 3", "1, 2", 2, "unlocked"), ctx.work, workers=2)
    if rc == 0 or "is violated" not in out:
        raise tlc.ToolError("RegistryProtocol.tla accepts the protocol without the lock")


def explore(ctx, exe, jobs):
    """jobs: list of (bound, maxruns, programs); explores them in the real code and checks the histories"""
    def work(ij):
        i, (bound, maxruns, ps) = ij
        if ctx.violations:
            return None
        f = os.path.join(ctx.work, "hist%d" % i)
        try:
            p = subprocess.run([exe, f, str(bound), str(maxruns)] + ps, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700)
        except subprocess.TimeoutExpired:
            raise tlc.ToolError("mt timed out on " + " ".join(ps))
        if p.returncode:
            raise tlc.ToolError("mt failed (%d) on %s" % (p.returncode, " ".join(ps)))
        stats = [json.loads(x) for x in p.stdout.decode().split("\n") if x]
        rc, out = tlc.run("RegistryTrace", TRACE, ctx.work, {"TRACE": f})
        text = " ".join(out.split())
        m = re.search(r'<<\s*"REACHED",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', text)
        if not m:
            raise tlc.ToolError("TLC failed:\n" + tlc.excerpt(out))
        bad = [int(x) for x in re.findall(r"\d+", m.group(3))] if "." not in m.group(3) else None
        hs = open(f).read().split("\n")
        if bad is None:
            a, b = re.search(r"(\d+)\s*\.\.\s*(\d+)", m.group(3)).groups()
            bad = list(range(int(a), int(b) + 1))
        os.unlink(f)
        return stats, [json.loads(hs[b - 1]) for b in bad], int(m.group(2)), tlc.stats(out), bound
    with ThreadPoolExecutor(8) as ex:
        res = [r for r in ex.map(work, enumerate(jobs)) if r]
    tot = ctx.__dict__.setdefault("extra", {}).setdefault("schedules", {"programs": 0, "schedules": 0, "histories": 0, "complete_within_bound": 0, "max_scheduling_points": 0, "programs_by_bound": {}})
    for stats, bad, n, st, bound in res:
        ctx.states += st[1]
        ctx.transitions += st[0]
        ctx.traces += n
        for s in stats:
            tot["programs"] += 1
            tot["schedules"] += s["runs"]
            tot["histories"] += s["histories"]
            tot["complete_within_bound"] += bool(s["complete"])
            tot["max_scheduling_points"] = max(tot["max_scheduling_points"], s["points"])
            tot["programs_by_bound"][str(bound)] = tot["programs_by_bound"].get(str(bound), 0) + 1
        if bad and not ctx.violations:
            h = min(bad, key=lambda b: (len(b["prog"]), len(b["sched"]), len(b["h"])))
            lines = "\n".join(json.dumps(e) for e in h["h"])
            msg = ("threads running %s under the schedule [%s] are not linearizable with respect to Registry.tla\n%s\n"
                   "history (I call, R return, D destruction, X data race, U access to freed memory, L deadlock, V livelock, C crash, E end):\n%s"
                   % (h["prog"], h["sched"], h["info"], lines))
            ctx.violation("schedule.txt", "# replay: MT_SCHEDULE='%s' mt OUT 0 1 '%s'\n%s\n" % (h["sched"], h["prog"], msg), msg)


def split(ps, bound, maxruns, parts=8):
    rs = [ps[i::parts] for i in range(parts)]
    return [(bound, maxruns, r) for r in rs if r]


def with_first(ps):
    """programs with rational elements also without the rationals having been created before"""
    return ps + ["!" + p for p in ps if "q" in p]


def schedules(ctx):
    exe = build.build("mt", ("mt",))["mt"]
    if ctx.thorough:
        ps = programs(ctx, 3, 2, 4)
    else:
        ps = programs(ctx, 2, 1, 4)
    two = [p for p in ps if p.count("/") == 1]
    three = [p for p in ps if p.count("/") == 2]
    small = with_first([p for p in two if len(p) - 1 - p.count("s") <= 2])
    rest = with_first([p for p in two if len(p) - 1 - p.count("s") > 2])
    rng = random.Random("C10/%d" % ctx.seed)
    rng.shuffle(rest)
    threes = with_first(three)
    rng.shuffle(threes)
    # computing in different fields at the same time
    own = ["Am/Bm", "Aem/Bem", "Aqm/Bqm"]
    if not ctx.thorough:
        explore(ctx, exe, split(own + small, 2, 20000))
        if not ctx.violations:
            explore(ctx, exe, split(rest[:120], 2, 3000) + split(threes[:100], 1, 3000))
        ctx.exhaustive.append("every schedule with at most 2 preemptions of the %d programs of two threads with up to 2 calls" % len(small))
        return
    explore(ctx, exe, split(own + small, 4, 60000))
    ctx.exhaustive.append("every schedule with at most 4 preemptions of the %d programs of two threads with up to 2 calls" % len(small))
    rng.shuffle(three)
    i = j = 0
    while not ctx.violations and time.time() - ctx.t0 < float(os.environ.get("VERIF_BUDGET", "600")) and (i < len(rest) or j < len(three)):
        explore(ctx, exe, split(rest[i:i + 80], 3, 20000) + split(three[j:j + 40], 2, 20000))
        i += 80
        j += 40


# what threads with fields of their own do; the rationals are shared by all of them
MIX = dict(elem=4, arith_cpp=3, arith_c=3, power=1, unary=1, compare=3, compare_rat=1, rounding=2, rounding_rat=1, doubles=2, components=2,
           hashes=1, text=2, text2=1, objects=3, cross=2, again=2, archives=1, archives2=1, creation=2, field_text=1, poly_count=1, poly_step=1)


def script(a):
    seed, tag, t, progs, steps = a
    g = gen.Gen("C10/%d/%s/%d" % (seed, tag, t), names=["%s%d" % (n, t) for n in ("x", "a", "t", "alpha")])
    for _ in range(progs):
        g.program(MIX, steps, 2)
    return g.out


# fields that all threads compute with: refined far enough and made immutable
SHARED = [([-2, 0, 1], 1, "x"), ([-1, -1, 0, 1], 0, "a"), ([1, 0, -10, 0, 1], 2, "t"), ([-2, 3], 0, "x")]
SHAREDMIX = dict(elem=4, arith_cpp=4, arith_c=4, power=2, unary=1, compare=4, compare_rat=2, compare_close=1, rounding=3, rounding_rat=1, doubles=3, components=2, hashes=2, text=2, field_text=1, values=3, infinite=1)


def shared_fields():
    out = []
    for p, i, n in SHARED:
        b = polys.ball_of(p, polys.roots(p)[i], 30)
        out.append("c_mk k0 %s %s %s #4000" % (gen.vec(p), gen.enc(n), gen.ball(b)))
    return out


class SharedGen(gen.Gen):
    def emit(self, *t):
        # nothing that makes an enclosure coarse or refines the field for exact multiples
        if t[0] not in ("c_eval", "c_setnf", "c_check", "refine", "floordiv", "c_fdiv"):
            super().emit(*t)

    def values(self):
        """copies and moves of elements of shared fields, constants of the field"""
        r = self.rng
        i, a = self.target(), self.some()
        c = r.randrange(5)
        if c < 2:
            self.emit(r.choice(["newc", "newc", "asg"]), "r%d" % i, "r%d" % a)
            self.R[i] = self.R[a] if self.R[i] or self.out[-1].startswith("newc") else None
        elif c < 3:
            self.emit("drop", "r%d" % i)
            self.R[i] = None
        else:
            k = self.handle()
            self.emit(r.choice(["gen", "one", "zero"]), "r%d" % i, "k%d" % k)
            self.R[i] = (self.K[k], 2)

    def program(self, weights, steps, fields=2, leak=0):
        self.reset()
        for n, (p, i, name) in enumerate(SHARED):
            self.emit("share", "k%d" % n, "#%d" % n)
            self.K[n] = gen.Field(p, i, name)
        for _ in range(3):
            self.elem()
        names, ws = zip(*weights.items())
        for _ in range(steps):
            getattr(self, self.rng.choices(names, ws)[0])()


def shared_script(a):
    seed, tag, t, progs, steps = a
    g = SharedGen("C10s/%d/%s/%d" % (seed, tag, t))
    for _ in range(progs):
        g.program(SHAREDMIX, steps)
    return g.out


def parallel(ctx, exe, tag, threads, progs, steps, validate, share=False):
    """threads with scripts of their own at the same time: each must see what it would see alone"""
    args, traces = [], []
    with ProcessPoolExecutor(8) as ex:
        scripts = list(ex.map(shared_script if share else script, [(ctx.seed, tag, t, progs, steps) for t in range(threads)]))
    first = ["-p"]
    if share:
        first = ["-s", os.path.join(ctx.work, tag + ".fields")]
        open(first[1], "w").write("\n".join(shared_fields()) + "\n")
    for t in range(threads):
        f = os.path.join(ctx.work, "%s-%d" % (tag, t))
        open(f + ".script", "w").write("\n".join(scripts[t]) + "\n")
        args += [f + ".script", f + ".trace"]
        traces.append(f + ".trace")
    e = dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66 history_size=4")
    e.pop("LIBEANTIC_STRICT_BINOP", None)
    err = os.path.join(ctx.work, tag + ".err")
    with open(err, "wb") as f:
        try:
            rc = subprocess.run([exe] + first + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=f, env=e, timeout=400).returncode
        except subprocess.TimeoutExpired:
            rc = -14
    if rc:
        msg = "\n".join(x for x in open(err, errors="replace").read().split("\n") if x and not x.startswith(("warning", "Performing")))
        if rc == 3:
            raise tlc.ToolError("driver rejected a script: " + msg[-1000:])
        text = "%d threads at the same time, each with the script of its own below: the process ended with status %d\n%s" % (threads, rc, msg[:4000])
        ctx.violation("parallel.txt", text + "\n\n" + "\n\n".join("thread %d\n%s" % (i, "\n".join(s)) for i, s in enumerate(scripts)), text)
        return
    if not validate:
        return

    def work(i):
        return i, tlc.check_trace(traces[i], "C10", ctx.work)
    with ThreadPoolExecutor(8) as ex:
        for i, (a, n, msg, st) in ex.map(work, range(threads)):
            if msg is None:
                ctx._count(dict(st=st, trace=traces[i]))
            elif not ctx.violations:
                ev = open(traces[i]).read().split("\n")[a]
                text = "thread %d of %d, all with fields of their own: %s\ncommand: %s\nevent: %s" % (i, threads, msg, scripts[i][min(a, len(scripts[i]) - 1)], ev[:1500])
                ctx.violation("parallel.txt", text + "\n\n" + "\n\n".join("thread %d\n%s" % (i, "\n".join(s)) for i, s in enumerate(scripts)), text)


def check(ctx):
    exe = build.build("tsan")["drv"]
    parallel(ctx, exe, "tsan", 8, 12, 60, True)
    if not ctx.violations:
        parallel(ctx, exe, "shared", 8, 8, 60, True, share=True)
    n = 0
    while not ctx.violations and (n < 1 or ctx.thorough and n < 12):
        parallel(ctx, exe, "tsan%d" % n, 8, 60, 60, ctx.thorough, share=n % 2 == 1)
        n += 1
    ctx.note("%d runs of 8 threads under ThreadSanitizer, with fields of their own, or with elements of their own in shared fields that are immutable" % (n + 2))
    if not ctx.violations:
        protocol(ctx)
    if not ctx.violations:
        schedules(ctx)
