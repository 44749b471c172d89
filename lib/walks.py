"""Walks through the state graph of spec/Lifecycle.tla that take every transition, as scripts."""
import collections
import os
import random

import tlc
from gen import enc

CFG = "SPECIFICATION Spec\nCONSTANTS NR = %d\nNK = %d\nVIEW View\nACTION_CONSTRAINT Log\nINVARIANTS CountOK NobodyDangles\nCHECK_DEADLOCK FALSE\n"
# fields with irrational generators: polynomial, embedding, ball of the embedding
POLS = [("-2,0,1", "1.41 +/- 0.1", "90,-6,1,-3"), ("-2,0,1", "-1.41 +/- 0.1", "-90,-6,1,-3"), ("-1,-1,0,1", "1.32 +/- 0.1", "85,-6,1,-3"), ("-3,0,1", "1.73 +/- 0.1", "111,-6,1,-3"),
        ("1,-3,0,1", "1.53 +/- 0.1", "98,-6,1,-3"), ("1,-3,0,1", "0.35 +/- 0.1", "22,-6,1,-3"), ("-2,0,0,0,1", "1.19 +/- 0.1", "76,-6,1,-3"), ("-5,0,4", "1.118 +/- 0.1", "72,-6,1,-3")]


def poly_text(v, x):
    return "+".join("%s*%s^%d" % (c, x, i) for i, c in enumerate(v.split(",")) if c != "0").replace("+-", "-")


def graph(ctx, nr, nk):
    log = os.path.join(ctx.work, "lifecycle-%d-%d.log" % (nr, nk))
    rc, out = tlc.run("Lifecycle", CFG % (nr, nk), ctx.work, {"LOG": log}, heap="4g", timeout=1500)
    if rc:
        raise tlc.ToolError("Lifecycle.tla: " + tlc.excerpt(out))
    gen, dist = tlc.stats(out)
    ctx.states += dist
    ctx.transitions += gen
    edges = collections.defaultdict(dict)
    with open(log) as f:
        for line in f:
            a, c, b = (x.strip('"') for x in line.strip().split('"|"'))
            edges[a][c] = b
    os.unlink(log)
    return edges, dist


def cover(edges, start, limit, rng):
    """walks from start, each at most about limit steps long, that take every edge"""
    left = {a: set(e) for a, e in edges.items()}
    for a in left:
        left[a] = sorted(left[a])
        rng.shuffle(left[a])
    todo = {a for a in left if left[a]}
    out = []
    while todo:
        at, walk = start, []
        while len(walk) < limit and todo:
            if left.get(at):
                c = left[at].pop()
                if not left[at]:
                    todo.discard(at)
                walk.append((at, c, edges[at][c]))
                at = edges[at][c]
                continue
            # the nearest state with something left
            prev, queue, goal = {at: None}, collections.deque([at]), None
            while queue and goal is None:
                a = queue.popleft()
                for c, b in edges[a].items():
                    if b not in prev:
                        prev[b] = (a, c)
                        queue.append(b)
                        if left.get(b):
                            goal = b
                            break
            if goal is None:
                break
            path = []
            while prev[goal]:
                a, c = prev[goal]
                path.append((a, c, goal))
                goal = a
            walk += reversed(path)
            at = walk[-1][2]
        if not walk:
            break
        out.append(walk)
    return out


def script(walk, nr, nk, rng):
    pa, pb = rng.sample(POLS, 2)
    pol = {"A": pa, "B": pb}
    out = ["reset"]
    for n, (a, c, b) in enumerate(walk):
        t = c.split()
        if t[0] in ("makeA", "makeB"):
            x = t[0][-1]
            v, e, ball = pol[x]
            h = rng.randrange(3)
            c = ("mk %s v:%s s:%s %s #64" % (t[1], v, x, enc(e)) if h == 0 else "mks %s %s s:%s %s #%d" % (t[1], enc(poly_text(v, x)), x, enc(e), rng.choice([64, 100])) if h == 1
                 else "c_mk %s v:%s s:%s b:%s #64" % (t[1], v, x, ball))
        out.append(c)
        if n % 10 == 9 or n == len(walk) - 1:
            s = b.split()
            out.append("expect " + " ".join("r%d %s" % (i, s[i]) for i in range(nr)) + " " + " ".join("k%d %s" % (i, s[nr + i]) for i in range(nk)))
    return out


def scripts(ctx, nr, nk, chunks=8, limit=250):
    edges, dist = graph(ctx, nr, nk)
    rng = random.Random("walks/%s" % ctx.seed)
    start = " ".join(["-"] * (nr + nk))
    ws = cover(edges, start, limit, rng)
    n = sum(len(e) for e in edges.values())
    ctx.exhaustive.append("Lifecycle.tla with %d registers and %d handles: %d states; every one of the %d transitions executed in the real code" % (nr, nk, dist, n))
    out = [[] for _ in range(chunks)]
    for w in ws:
        min(out, key=len).extend(script(w, nr, nk, rng))
    return out
