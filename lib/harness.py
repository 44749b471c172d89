"""Executes scripts in the real code and validates the recorded traces with TLC."""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import build
import tlc

VERIF = build.VERIF


class Violation(Exception):
    def __init__(self, replay, msg):
        super().__init__(msg)
        self.replay, self.msg = replay, msg


class Ctx:
    """one run of one check"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        os.makedirs(build.CACHE, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=build.CACHE)
        self.states = self.transitions = self.traces = 0
        self.events = self.skipped = 0
        self.ops = {}
        self.samples = []
        self.notes = []
        self.violations = []
        self.exhaustive = []

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def note(self, s):
        self.notes.append(s)

    def replay_path(self, name):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def violation(self, name, text, msg):
        p = self.replay_path(name)
        with open(p, "w") as f:
            f.write(text)
        self.violations.append((p, msg))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("  " + msg.replace("\n", "\n  ")[:3000])
        sys.stdout.flush()

    # ---- the driver
    def execute(self, exe, script, trace, limit_ms=60000, env=None, timeout=400):
        """run a script; a crash, hang or sanitizer report becomes a final event 'crash'"""
        e = dict(os.environ)
        e.pop("LIBEANTIC_STRICT_BINOP", None)
        e.update(env or {})
        err = trace + ".err"
        with open(err, "wb") as f:
            try:
                rc = subprocess.run((exe if isinstance(exe, list) else [exe]) + [script, trace, str(limit_ms)], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=f, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -signal.SIGALRM
        with open(err, "rb") as f:
            msg = f.read().decode(errors="replace")
        if rc == 3:
            raise tlc.ToolError("driver rejected the script %s: %s" % (script, msg[-1000:]))
        if rc != 0:
            # keep only complete events
            data = open(trace).read() if os.path.exists(trace) else ""
            data = data[:data.rfind("\n") + 1]
            q = 1
            with open(trace, "w") as f:
                f.write(data)
                f.write(json.dumps({"op": "crash", "rc": rc, "q": q}) + "\n")
            keep = [x for x in msg.split("\n") if x and not x.startswith(("warning", "Performing arithmetic"))]
            return rc, "\n".join(keep[:60])[-3000:]
        return 0, ""

    def run_only(self, chunks, exe, env=None, label="x", limit_ms=60000):
        """executes scripts without validating what they compute; those that fail (a sanitizer report, a crash) are validated and reported"""
        def work(ic):
            i, c = ic
            f = os.path.join(self.work, "%s%d" % (label, i))
            with open(f + ".script", "w") as g:
                g.write("\n".join(c) + "\n")
            rc, _ = self.execute(exe, f + ".script", f + ".trace", limit_ms, env)
            n = sum(1 for _ in open(f + ".trace"))
            os.unlink(f + ".trace")
            return c if rc else None, n
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(work, enumerate(chunks)))
        self.note("%d more events executed in scripts that were only watched by the sanitizers" % sum(n for _, n in res))
        bad = [c for c, _ in res if c]
        if bad:
            self.conform(bad, exe=exe, env=env, label=label + "r", limit_ms=limit_ms)

    def _one(self, exe, name, lines, focus, strict, env, limit_ms, module):
        script = os.path.join(self.work, name + ".script")
        trace = os.path.join(self.work, name + ".trace")
        with open(script, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, err = self.execute(exe, script, trace, limit_ms, env)
        n = sum(1 for _ in open(trace))
        if n == 0 or (n == 1 and rc):
            if rc:
                return dict(ok=False, at=0, n=n, msg="the process ended with %d before the first event\n%s" % (rc, err), rc=rc, trace=trace, st=(0, 0))
        a, n, msg, st = tlc.check_trace(trace, focus, self.work, strict, module)
        if msg and rc:
            msg += "\nthe process ended with status %d\n%s" % (rc, err)
        return dict(ok=msg is None, at=a, n=n, msg=msg, rc=rc, trace=trace, st=st)

    def conform(self, chunks, focus=None, strict=False, exe=None, env=None, limit_ms=60000, label="t", module="EAnticTrace", jobs=8):
        """chunks: list of scripts (lists of lines). Executes and validates each of them."""
        focus = focus or self.prop
        exe = exe or build.build("plain")["drv"]
        build.java()

        def work(ic):
            i, c = ic
            if self.violations or stop:
                return None
            r = self._one(exe, "%s%d" % (label, i), c, focus, strict, env, limit_ms, module)
            if r["ok"]:
                self._count(r)
            else:
                stop.append(i)
            return (i, c, r)
        stop = []
        with ThreadPoolExecutor(jobs) as ex:
            res = [x for x in ex.map(work, enumerate(chunks)) if x]
        for i, c, r in res:
            if not r["ok"] and not self.violations:
                self._report(exe, "%s%d" % (label, i), c, r, focus, strict, env, limit_ms, module)

    def _count(self, r):
        st = r["st"]
        self.transitions += st[0]
        self.states += st[1]
        self.traces += 1
        first = None
        with open(r["trace"]) as f:
            for line in f:
                self.events += 1
                e = json.loads(line)
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
                if e["op"] not in ("skip", "reset") and (first is None or self.events % 97 == 0):
                    first = e
        if first and len(self.samples) < 6:
            self.samples.append({k: first[k] for k in ("op", "a", "ret", "exc", "ch") if k in first})
        for x in (r["trace"], r["trace"][:-6] + ".script"):
            try:
                os.unlink(x)
            except OSError:
                pass

    def _report(self, exe, name, lines, r, focus, strict, env, limit_ms, module):
        """confirm, shorten and report a rejected trace"""
        again = self._one(exe, name + "-again", lines, focus, strict, env, limit_ms, module)
        if again["ok"]:
            again = self._one(exe, name + "-again2", lines, focus, strict, env, limit_ms, module)
            if again["ok"]:
                self.note("a rejection of %s did not recur: %s" % (name, r["msg"]))
                self._count(again)
                return
        r = again
        bad = lines[:r["at"] + 1]
        # only what follows the last reset, if that still fails
        last = max([i for i, x in enumerate(bad) if x == "reset"] or [0])
        if last > 0:
            short = ["reset"] + bad[last + 1:]
            s = self._one(exe, name + "-short", short, focus, strict, env, limit_ms, module)
            if not s["ok"]:
                bad, r = short[:s["at"] + 1], s
        ev = ""
        with open(r["trace"]) as f:
            for i, line in enumerate(f):
                if i == r["at"]:
                    ev = line.strip()
        cmd = bad[-1] if bad else "?"
        msg = "command: %s\n%s\nevent: %s" % (cmd, r["msg"], ev[:1500])
        text = "# %s\n# run with: drv SCRIPT TRACE; TRACE=... TLC on spec/%s.tla (Focus = %s)\n" % (msg.replace("\n", "\n# "), module, focus)
        self.violation(name + ".script", text + "\n".join(bad) + "\n", msg)

    # ---- evidence
    def evidence(self, level="model_checking", extra=None, assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6], "events": self.events, "events_by_operation": dict(sorted(self.ops.items())),
               "skipped_out_of_domain": self.ops.get("skip", 0), "exhaustive_parts": self.exhaustive, "notes": self.notes}
        cov.update(extra or {})
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
