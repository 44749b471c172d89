"""Programs that TLC enumerates from spec/Enumerate.tla, as scripts."""
import os

import tlc

CFG = "SPECIFICATION Spec\nACTION_CONSTRAINT Log\nCHECK_DEADLOCK FALSE\n"


def programs(ctx, family, deep):
    log = os.path.join(ctx.work, "enumerate-%s.log" % family)
    open(log, "w").close()
    rc, out = tlc.run("Enumerate", CFG, ctx.work, {"LOG": log, "FAMILY": family, "DEEP": "1" if deep else "0"}, heap="6g", timeout=850)
    if rc:
        raise tlc.ToolError("Enumerate.tla: " + tlc.excerpt(out))
    gen, dist = tlc.stats(out)
    ctx.states += dist
    ctx.transitions += gen
    with open(log) as f:
        ps = [x.rstrip("\n").strip('"') for x in f]
    os.unlink(log)
    return ps


def scripts(ctx, family, deep=False, chunks=16):
    ps = programs(ctx, family, deep)
    out = [["reset"] for _ in range(chunks)]
    per = (len(ps) + chunks - 1) // chunks or 1
    n = 0
    for c in range(chunks):
        prev = []
        for p in ps[c * per:(c + 1) * per]:
            cmds = [x for x in p.split(";") if x]
            # programs that start alike continue from there where nothing shared is changed (they only write to r2, r3)
            k = 0
            if family in SHARE:
                while k < min(len(prev), len(cmds), SHARE[family](cmds)) and prev[k] == cmds[k]:
                    k += 1
            out[c] += cmds[k:]
            n += len(cmds) - k
            prev = cmds
    ctx.exhaustive.append("family %s of Enumerate.tla: all %d programs (%d commands) executed in the real code" % (family, len(ps), n))
    return [x for x in out if len(x) > 1]


def upto(prefix):
    """how many of the first commands belong to the common setup"""
    def f(cmds):
        for i, c in enumerate(cmds):
            if not c.startswith(prefix):
                return i
        return len(cmds)
    return f


MK = ("reset", "c_mk", "mk ", "mkq")
SHARE = {"arith": upto(MK + ("newv r0",)), "number": upto(MK + ("newv r0", "zero r2")), "relation": upto(MK + ("newv r0", "is r0", "sgn r0", "c_sgn r0")), "pairs": upto(MK + ("newv r0",)),
         "round": upto(MK + ("newv r0", "floor r0", "ceil r0", "c_floor r0", "c_ceil r0", "zero r3", "c_cfrac")), "double": upto(MK + ("zero r1",)), "stream": upto(MK), "convert": upto(MK), "coerce": upto(MK)}
