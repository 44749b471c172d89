"""Script interpreter for the Python interface; same scripts and traces as drv.cpp.

    pydrv.py SCRIPT TRACE [LIMIT_MS]      (PYOBS: path of the library of pyobs.cpp)

Registers and handles are Python variables: they may refer to the same object.
"""
import copy
import ctypes
import gc
import json
import math
import operator
import os
import pickle
import random
import faulthandler
import sys
import warnings
from fractions import Fraction

warnings.simplefilter("ignore")
import cppyy
from pyeantic import eantic

obs = ctypes.CDLL(os.environ["PYOBS"])
for f, res, args in [("q", ctypes.c_void_p, []), ("parent", ctypes.c_void_p, [ctypes.c_void_p]), ("elem", ctypes.c_char_p, [ctypes.c_void_p]),
                     ("field", ctypes.c_char_p, [ctypes.c_void_p]), ("fball", ctypes.c_char_p, [ctypes.c_void_p]),
                     ("text_ball", ctypes.c_char_p, [ctypes.c_char_p, ctypes.c_long]), ("double", ctypes.c_char_p, [ctypes.c_double]),
                     ("equal", ctypes.c_int, [ctypes.c_void_p, ctypes.c_void_p]), ("kind", ctypes.c_int, [ctypes.c_void_p]), ("bits", ctypes.c_ulong, [ctypes.c_void_p])]:
    g = getattr(obs, "obs_" + f)
    g.restype, g.argtypes = res, args
mpz, mpq = cppyy.gbl.mpz_class, cppyy.gbl.mpq_class
string = cppyy.gbl.std.string
NR = NK = 12
R, K, RA = [None] * NR, [None] * NK, [None] * NK
blobs, sigs = {}, {}
ids, lastball, nextid = {}, {}, 1
lastR, lastK = [None] * NR, [None] * NK


def addr(x):
    return cppyy.addressof(x)


def text(s):
    return {"s": s, "c": [ord(c) for c in s]}


def unpercent(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "%" and i + 2 < len(s):
            out += chr(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i]
            i += 1
    return out


class Tok:
    def __init__(self, raw):
        self.raw = raw
        self.isr = len(raw) > 1 and raw[0] == "r" and raw[1:].isdigit()
        self.isk = len(raw) > 1 and raw[0] == "k" and raw[1:].isdigit()
        self.isint = raw[0] == "#"
        self.isstr = raw.startswith("s:")
        self.isvec = raw.startswith("v:")
        self.isnum = not self.isstr and not self.isvec and raw != ":" and ":" in raw

    @property
    def i(self):
        return int(self.raw[1:])

    @property
    def s(self):
        return unpercent(self.raw[2:])

    @property
    def v(self):
        return [Fraction(x) for x in self.raw[2:].split(",") if x]

    @property
    def q(self):
        return Fraction(self.raw.split(":")[1])

    def json(self):
        if self.isr:
            return {"r": self.i}
        if self.isk:
            return {"k": self.i}
        if self.isint:
            return {"i": self.i}
        if self.isstr:
            return text(self.s)
        if self.isvec:
            return {"v": [jq(x) for x in self.v]}
        if self.isnum:
            return {"q": jq(self.q), "t": self.raw.split(":")[0]}
        return {"w": self.raw}


def jq(x):
    return [str(x.numerator), str(x.denominator)]


def number(t):
    k, q = t.raw.split(":")[0], t.q
    if k == "int":
        return int(q)
    if k == "bool":
        return bool(q)
    if k == "mpz":
        return mpz(string(str(int(q))))
    return mpq(string(str(q)))


def val(t):
    return R[t.i] if t.isr else number(t)


def coeff(x, how):
    if how == "mpq" or x.denominator != 1:
        return mpq(string(str(x)))
    return mpz(string(str(int(x)))) if how == "mpz" else int(x)


ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
INPL = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}
REL = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
BAD = {"float": 1.5, "none": None, "str": "1", "list": [1], "complex": 1j, "object": object(), "dict": {}, "zden": "1/0"}
ops = {}


def op(*names):
    def deco(f):
        for n in names:
            ops[n] = f
        return f
    return deco


@op("reset")
def _(T):
    for l in (R, K, RA):
        for i in range(len(l)):
            l[i] = None
    blobs.clear()
    sigs.clear()


def setk(i, v, ra=None):
    K[i], RA[i] = v, ra


@op("mks")
def _(T):
    a = (T[2].s, T[3].s, T[4].s)
    setk(T[1].i, eantic.renf(*a) if T[5].i == 64 else eantic.renf(*a, T[5].i))


@op("mkq")
def _(T):
    setk(T[1].i, eantic.renf())


@op("mkh")
def _(T):
    setk(T[1].i, K[T[2].i], RA[T[2].i])


@op("mkp")
def _(T):
    setk(T[1].i, R[T[2].i].parent())


@op("mkgp")
def _(T):
    k = K[T[2].i]
    K[T[2].i] = None if T[1].i == T[2].i else k
    g = k.gen()
    del k
    setk(T[1].i, g.parent())


@op("dropk")
def _(T):
    setk(T[1].i, None)


@op("drop")
def _(T):
    R[T[1].i] = None


@op("py_gc")
def _(T):
    gc.collect()


@op("finfo")
def _(T):
    k = K[T[1].i]
    e = lambda x: json.loads("{" + obs.obs_elem(addr(x)).decode() + "}")
    return {"deg": k.degree(), "cdeg": int(k.degree()), "name": text(str(k.gen_name())), "zero": e(k.zero()), "one": e(k.one()), "gen": e(k.gen())}


@op("fstr")
def _(T):
    k = K[T[1].i]
    s = str(k)
    i = s.find(", ")
    b = obs.obs_text_ball((s[i + 2:-1] if i >= 0 else "").encode(), 300).decode()
    return {"s": text(s), "same": repr(k) == s and str(k.to_string()) == s, "pol": text(s[12:i] if i >= 0 else ""), "err": 1 if "bad" in b else 0, "b": json.loads(b) if "bad" not in b else []}


@op("feq")
def _(T):
    x, y = K[T[1].i], K[T[2].i]
    return [x == y, x != y, addr(x) == addr(y), bool(obs.obs_equal(addr(x), addr(y))), hash(x) == hash(y)]


@op("fhash")
def _(T):
    return str(hash(K[T[1].i]))


@op("new")
def _(T):
    R[T[1].i] = eantic.renf_elem(K[T[2].i])


@op("newd")
def _(T):
    R[T[1].i] = eantic.renf_elem()


@op("newn")
def _(T):
    R[T[1].i] = eantic.renf_elem(K[T[2].i], number(T[3]))


@op("newq")
def _(T):
    R[T[1].i] = eantic.renf_elem(T[2].raw[4:] if T[2].raw.startswith("str:") else number(T[2]))


@op("news")
def _(T):
    R[T[1].i] = eantic.renf_elem(K[T[2].i], T[3].s)


@op("newv")
def _(T):
    l = [coeff(x, T[3].raw) for x in T[4].v]
    R[T[1].i] = eantic.renf_elem(K[T[2].i], tuple(l) if len(l) % 2 else l)


@op("newe")
def _(T):
    R[T[1].i] = eantic.renf_elem(K[T[2].i], R[T[3].i])


@op("newc")
def _(T):
    R[T[1].i] = eantic.renf_elem(R[T[2].i])


@op("strrt")
def _(T):  # copies
    R[T[1].i] = copy.copy(R[T[2].i])


@op("asg")
def _(T):
    R[T[1].i] = R[T[2].i]


@op("gen")
def _(T):
    R[T[1].i] = K[T[2].i].gen()


@op("zero")
def _(T):
    R[T[1].i] = K[T[2].i].zero()


@op("one")
def _(T):
    R[T[1].i] = K[T[2].i].one()


@op("bin")
def _(T):
    R[T[2].i] = ARITH[T[1].raw](val(T[3]), val(T[4]))


@op("inp")
def _(T):
    R[T[2].i] = INPL[T[1].raw](R[T[2].i], val(T[3]))


@op("neg")
def _(T):
    R[T[1].i] = -R[T[2].i]


@op("pos")
def _(T):
    R[T[1].i] = +R[T[2].i]


@op("pow")
def _(T):
    R[T[1].i] = R[T[2].i] ** T[3].i


@op("powf")
def _(T):
    R[T[1].i] = R[T[2].i].pow(T[3].i)


@op("py_sum")
def _(T):  # py_sum rT : rA rB ..
    R[T[1].i] = sum([R[t.i] for t in T[3:]])


@op("rel")
def _(T):
    return REL[T[1].raw](val(T[2]), val(T[3]))


@op("sgn")
def _(T):
    x = R[T[1].i]
    return (x > 0) - (x < 0)


@op("is")
def _(T):
    x = R[T[1].i]
    a = [bool(x.is_zero()), bool(x.is_one()), bool(x.is_integer()), bool(x.is_rational())]
    return a + [bool(x)] + a


@op("floor")
def _(T):
    return str(R[T[1].i].floor())


@op("ceil")
def _(T):
    return str(R[T[1].i].ceil())


@op("floordiv")
def _(T):
    return str(R[T[1].i].floordiv(R[T[2].i]))


@op("dbl")
def _(T):
    return json.loads(obs.obs_double(float(R[T[1].i])).decode())


@op("parts")
def _(T):
    x = R[T[1].i]
    return {"nv": [str(z) for z in x.num_vector()], "den": str(x.den()), "content": str(x.num_content())}


@op("num")
def _(T):
    return str(R[T[1].i].num())


@op("tompq")
def _(T):
    q = Fraction(str(eantic.cppyy.rational(R[T[1].i])))
    return jq(q)


@op("hash")
def _(T):
    return str(hash(R[T[1].i]))


@op("strx")
def _(T):
    x = R[T[1].i]
    return [text(repr(x)), text(str(x.to_string())), text(str(x.to_string()) if str(x) == repr(x) else "str(x) != repr(x)")]


@op("sort")
def _(T):
    l = sorted([R[t.i] for t in T[1:]])
    for t, x in zip(T[1:], l):
        R[t.i] = x


@op("uset")
def _(T):
    c = [t.raw for t in T].index(":")
    s = {R[t.i] for t in T[1:c]}
    d = {R[t.i]: 1 for t in T[1:c]}
    return {"size": len(s), "in": [R[t.i] in s and R[t.i] in d for t in T[c + 1:]]}


@op("save")
def _(T):
    blobs[T[1].i] = pickle.dumps([R[t.i] if t.isr else K[t.i] for t in T[3:]])
    sigs[T[1].i] = [t.isr for t in T[3:]]


@op("load")
def _(T):
    l = pickle.loads(blobs[T[1].i])
    for t, x in zip(T[3:], l):
        if t.isr:
            R[t.i] = x
        else:
            setk(t.i, x)


@op("py_bad")
def _(T):  # py_bad KIND OBJECT rA kB: must be refused
    k, x, r, f = T[1].raw, BAD.get(T[2].raw), R[T[3].i], K[T[4].i]
    if k in ARITH:
        return repr(ARITH[k](r, x))[:0] + "accepted"
    if k[0] == "r" and k[1:] in ARITH:
        return repr(ARITH[k[1:]](x, r))[:0] + "accepted"
    if k[0] == "i" and k[1:] in ARITH:
        return repr(INPL[k[1:]](r, x))[:0] + "accepted"
    if k in REL:
        return repr(REL[k](r, x))[:0] + "accepted"
    if k == "pow":
        return repr(r ** x)[:0] + "accepted"
    if k == "bigpow":
        return repr(r ** (2 ** 40))[:0] + "accepted"
    if k == "new":
        return repr(eantic.renf_elem(f, x if T[2].raw not in ("str", "list") else "1+" if T[2].raw == "str" else [1.5]))[:0] + "accepted"
    if k == "new1":
        return repr(eantic.renf_elem(x if T[2].raw not in ("str", "list") else "a" if T[2].raw == "str" else [1]))[:0] + "accepted"
    if k == "new3":
        return repr(eantic.renf_elem(f, 1, 2))[:0] + "accepted"
    raise SystemExit(3)


@op("ra_mk")
def _(T):  # ra_mk kI v:coefficients #index s:name
    import realalg
    from pyeantic.realalg_conversion import realalg_nf_to_eantic
    F = realalg.RealNumberField([int(x) if x.denominator == 1 else x for x in T[2].v], index=T[3].i)
    I = F.intervals(15)[1]
    global raball
    # a ball around the root, generous for the sixteen digits that the conversion asks for
    m = Fraction(I.lower + I.upper, 2 * 10 ** I.precision)
    rad = Fraction(1, 10 ** 12) * (1 + abs(m))
    raball = json.loads(obs.obs_text_ball(("%de-30 +/- %de-30" % (m * 10 ** 30, rad * 10 ** 30 + 1)).encode(), 400).decode())
    setk(T[1].i, realalg_nf_to_eantic(F, T[4].s), F)


@op("ra_elem")
def _(T):  # ra_elem rI kJ v:coefficients
    from pyeantic.realalg_conversion import realalg_nf_elem_to_eantic
    R[T[1].i] = realalg_nf_elem_to_eantic(K[T[2].i], RA[T[2].i](T[3].v))


@op("ra_num")
def _(T):  # ra_num rI kJ KIND q:number
    from pyeantic.realalg_conversion import realalg_nf_elem_to_eantic
    q = T[4].q
    R[T[1].i] = realalg_nf_elem_to_eantic(K[T[2].i], q if T[3].raw == "frac" else str(q) if T[3].raw == "str" else int(q) if q.denominator == 1 else q)


T1 = {"new", "newd", "newn", "newq", "newv", "news", "newe", "newc", "zero", "one", "gen", "neg", "pos", "pow", "powf", "drop", "strrt", "asg", "py_sum", "ra_elem", "ra_num"}
K1 = {"mks", "mkq", "mkh", "mkp", "mkgp", "dropk", "ra_mk"}


def in_domain(o, T):
    nonrat, comparable, seen = None, True, set()
    for i, t in enumerate(T):
        if t.isr:
            target = (i == 1 and o in T1) or (i == 2 and o == "bin") or o == "load"
            if not target:
                x = R[t.i]
                if x is None or obs.obs_bits(addr(x)) > (4000 if o in ("strx", "save") else 20000):
                    return False
                if not obs.obs_kind(addr(x)) & 2:
                    p = obs.obs_parent(addr(x))
                    comparable = comparable and nonrat in (None, p)
                    nonrat = p
        elif t.isk:
            target = (i == 1 and o in K1) or o == "load"
            if not target and K[t.i] is None:
                return False
    zero = lambda t: obs.obs_kind(addr(R[t.i])) & 1 if t.isr else t.q == 0
    if o in ("bin", "inp") and T[1].raw == "/" and zero(T[-1]):
        return False
    if o == "floordiv" and zero(T[2]):
        return False
    if o in ("pow", "powf") and T[3].i < 0 and zero(T[2]):
        return False
    if o in ("sort", "uset", "py_sum") and not comparable:
        return False
    if o == "sort" and len({t.i for t in T[1:]}) < len(T) - 1:
        return False
    if o in ("tompq", "num") and not obs.obs_kind(addr(R[T[1].i])) & 2:
        return False
    if o == "newv" and len(T[4].v) > max(1, K[T[2].i].degree()):
        return False
    if o == "load" and sigs.get(T[1].i) != [t.isr for t in T[3:]]:
        return False
    if o == "ra_elem" and RA[T[2].i] is None:
        return False
    return True


def fid(a, newf):
    global nextid
    if a not in ids:
        ids[a] = nextid
        nextid += 1
        lastball[ids[a]] = obs.obs_fball(a)
        newf.append(json.loads("{\"id\":%d,%s}" % (ids[a], obs.obs_field(a).decode())))
    return ids[a]


def main():
    global raball
    limit = int(sys.argv[3]) / 1000 if len(sys.argv) > 3 else 0
    out = open(sys.argv[2], "w")
    for line in open(sys.argv[1]):
        line = line.strip()
        if not line or line[0] == "#":
            continue
        T = [Tok(x) for x in line.split()]
        name, ret, exc, raball = T[0].raw, 0, "", None
        if name not in ops:
            print("unknown command", line, file=sys.stderr)
            sys.exit(3)
        args = [t.json() for t in T[1:]]
        ball = None
        if name == "mks":
            ball = json.loads(obs.obs_text_ball(T[4].s.encode(), T[5].i).decode())
        if limit:  # ends the process even when it waits for a lock, and when it hangs between two commands
            faulthandler.dump_traceback_later(limit, exit=True)
        if not in_domain(name, T):
            name = "skip"
        else:
            try:
                ret = ops[name](T)
            except Exception as e:
                exc = "error"
                del e
        if name == "ra_mk":
            ball = raball or []
        Q = obs.obs_q()
        used = {Q} | {obs.obs_parent(addr(x)) for x in R if x is not None} | {addr(k) for k in K if k is not None}
        for a in [a for a in ids if a not in used]:
            lastball.pop(ids[a])
            del ids[a]
        newf, ch, hc, fb = [], [], [], []
        for a in used:
            fid(a, newf)
        for i, x in enumerate(R):
            s = "{\"f\":-2}" if x is None else "{\"f\":%d,%s}" % (fid(obs.obs_parent(addr(x)), newf), obs.obs_elem(addr(x)).decode())
            if s != lastR[i]:
                lastR[i] = s
                ch.append([i, json.loads(s)])
        for i, k in enumerate(K):
            s = -2 if k is None else fid(addr(k), newf)
            if s != lastK[i]:
                lastK[i] = s
                hc.append([i, s])
        for a, n in ids.items():
            b = obs.obs_fball(a)
            if b != lastball[n]:
                lastball[n] = b
                fb.append([n, json.loads(b)])
        x = None
        e = {"op": name, "a": args, "ret": 0 if ret is None else ret, "exc": exc, "ch": ch, "hc": hc, "nf": newf, "fb": fb, "live": 1000000, "open": 1, "q": fid(Q, newf)}
        if ball is not None:
            e["ball"] = ball
        out.write(json.dumps(e) + "\n")
        out.flush()
    out.close()
    for l in (R, K, RA):
        l[:] = []
    sys.stdout.flush()


main()
