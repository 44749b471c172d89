"""Generators of driver scripts. They only choose inputs; all judging is done by the specification."""
import random
import sys
import re
from fractions import Fraction as Fr
from math import gcd

import polys

NAMES = ["x", "a", "t", "alpha", "s2", "_z", "A1", "xx", "e", "x1", "E", "generator_of_a_number_field_0123456789"]
NUMT = ["short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "mpz", "mpq"]
CT = ["si", "ui", "fmpz", "fmpq"]
RANGE = {"short": (-2**15, 2**15 - 1), "ushort": (0, 2**16 - 1), "int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1),
         "long": (-2**63, 2**63 - 1), "ulong": (0, 2**64 - 1), "llong": (-2**63, 2**63 - 1), "ullong": (0, 2**64 - 1),
         "si": (-2**63, 2**63 - 1), "ui": (0, 2**64 - 1)}


def enc(s):
    return "s:" + "".join(c if c.isalnum() or c in "_.+-/*^(){}[]=,;:@&$!?<>|" else "%%%02x" % b
                          for b, c in ((ord(c), c) for c in s))


sys.set_int_max_str_digits(0)


def vec(v):
    return "v:" + ",".join(str(c) for c in v)


def ball(b):
    return "b:" + ",".join(str(c) for c in b)


class Field:
    def __init__(self, p, idx, name):
        self.p, self.idx, self.name = p, idx, name
        self.deg = len(p) - 1

    @property
    def iv(self):
        return polys.roots(self.p)[self.idx]


MONO = re.compile(r"([+\- ]*)(\d[\d/]*)? *(\*? *)(.*)$", re.S)


def parse_poly(t, name):
    """what the text denotes: a list of integer coefficients up to a factor, or None"""
    c = {}
    for m in re.findall(r" *[+\- ]*[^+\-]*", t):
        if m == "":
            continue
        s, co, star, x = MONO.match(m).groups()
        v = Fr(1)
        try:
            if co:
                v = Fr(co)
        except (ValueError, ZeroDivisionError):
            return None
        if s.count("-") % 2:
            v = -v
        if x == "":
            if not co or "*" in star:
                return None
            e = 0
        else:
            if not x.startswith(name):
                return None
            y = re.match(r"(?: *| *\^ *(\d+) *|(\d+) *)$", x[len(name):])
            if not y:
                return None
            e = int(y.group(1) or y.group(2) or 1)
        if e > 400:
            return [0, 0]
        c[e] = c.get(e, 0) + v
    l = 1
    for v in c.values():
        l *= v.denominator
    return polys.trim([int(c.get(i, Fr(0)) * l) for i in range(max(c, default=-1) + 1)])


class Gen:
    NR, NK = 12, 12

    def __init__(self, seed, names=NAMES):
        polys._finest.clear()
        self.names = names
        self.rng = random.Random(seed)
        self.out = []
        self.K = [None] * self.NK          # Field or None (what the generator believes)
        self.R = [None] * self.NR          # (Field or "Q", bits)
        self.Q = Field([-1, 1], 0, "a")

    def emit(self, *t):
        self.out.append(" ".join(str(x) for x in t))

    def reset(self):
        self.emit("reset")
        self.K = [None] * self.NK
        self.R = [None] * self.NR

    # ---- numbers
    def integer(self, bits=None):
        r = self.rng
        k = r.randrange(10)
        if bits is None:
            if k < 5:
                return r.randrange(-4, 5)
            if k < 7:
                return r.randrange(-1000, 1000)
            if k < 8:
                b = r.choice([15, 16, 31, 32, 52, 53, 54, 62, 63, 64, r.randrange(1, 131)])
                return r.choice([-1, 1]) * (2 ** b + r.randrange(-1, 2))
            bits = r.choice([20, 40, 61, 62, 63, 64, 65, 100, 200, r.randrange(1, 600)])
        return r.randrange(-2 ** bits, 2 ** bits + 1)

    def rational(self):
        r = self.rng
        if r.random() < 0.4:
            return Fr(self.integer())
        if r.random() < 0.1:  # sizes around a word
            d = r.choice([1, 3, 2 ** 62, 2 ** 63]) + r.randrange(2 ** r.randrange(61, 66))
        else:
            d = abs(self.integer()) or 1
        return Fr(self.integer(), d)

    def number(self, types=None, nonzero=False):
        r = self.rng
        t = r.choice(types or NUMT)
        while True:
            if t in RANGE:
                lo, hi = RANGE[t]
                v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1]) if r.random() < 0.25 else self.integer()
                v = max(lo, min(hi, v))
            elif t in ("mpz", "fmpz"):
                v = self.integer()
            else:
                v = self.rational()
            if v or not nonzero:
                return "%s:%s" % (t, v)

    # ---- fields
    def field(self, k=None, p=None, idx=None, name=None, how=None):
        """create a field in handle k"""
        r = self.rng
        p = p or polys.random_irreducible(r)
        iv = polys.roots(p)
        idx = r.randrange(len(iv)) if idx is None else idx
        name = name or r.choice(self.names)
        k = r.randrange(self.NK) if k is None else k
        f = Field(p, idx, name)
        how = how or r.choice(["c_mk", "c_mk", "mk", "mk", "wide", "mkfun"])
        prec = r.choice([64, 64, 64, 2, 10, 53, 100, 128, 300])
        b = polys.wide_ball(p, iv[idx], r) if how == "wide" else polys.ball_of(p, iv[idx], r.choice([0, 2, 5, 10, 30, 64, 100]))
        v = vec(p) if r.random() < 0.7 else vec([Fr(c, r.choice([1, 2, 3, 6])) for c in p]) if False else vec(p)
        if r.random() < 0.15:
            d = r.choice([2, 3, 12])
            v = vec([Fr(c, d) for c in p])
        if how in ("c_mk", "wide"):
            self.emit("c_mk", "k%d" % k, v, enc(name), ball(b), "#%d" % prec)
        elif how == "mkfun":
            w = [polys.ball_text(polys.wide_ball(p, iv[idx], r), r), polys.ball_text(b, r), polys.ball_text(polys.ball_of(p, iv[idx], 40 + len(p) * 8), r),
                 polys.ball_text(polys.ball_of(p, iv[idx], 400), r)]
            self.emit("mkfun", "k%d" % k, v, enc(name), *[enc(t) for t in w], "#%d" % max(prec, 32))
        else:
            prec = max(prec, 64)
            self.emit("mk", "k%d" % k, v, enc(name), enc(polys.ball_text(polys.ball_of(p, iv[idx], r.choice([8, 20, 60])), r)), "#%d" % (prec + 64))
        self.K[k] = f
        return k

    def handles(self):
        return [i for i in range(self.NK) if self.K[i]]

    def handle(self):
        h = self.handles()
        return self.rng.choice(h) if h else self.field()

    # ---- elements
    def target(self):
        return self.rng.randrange(self.NR)

    def regs(self, f=None):
        return [i for i in range(self.NR) if self.R[i] and (f is None or self.R[i][0] is f)]

    def coeffs(self, f, small=False):
        r = self.rng
        n = max(1, f.deg)
        z = r.random()
        v = []
        for i in range(n):
            if r.random() < z * 0.5:
                v.append(Fr(0))
            else:
                v.append(Fr(r.randrange(-9, 10), r.choice([1, 1, 2, 3])) if small else self.rational())
        return v

    def huge(self, f):
        """coefficients of more than a thousand bits"""
        r = self.rng
        v = [Fr(0)] * max(1, f.deg)
        for i in r.choice([[0], [r.randrange(len(v))], range(len(v))]):
            n = r.choice([500, 1000, 1100, 2000, 4000])
            v[i] = r.choice([Fr(self.integer(n)), Fr(self.integer(n), r.randrange(1, 2 ** n)), Fr(self.integer(10), r.randrange(1, 2 ** n))])
        return v

    def elem(self, k=None, i=None, small=False):
        """put some element of the field of handle k into register i"""
        r = self.rng
        k = self.handle() if k is None else k
        i = self.target() if i is None else i
        f = self.K[k]
        c = r.randrange(14)
        ri, kk = "r%d" % i, "k%d" % k
        bits = 200
        if not small and r.random() < 0.02:
            v = self.huge(f)
            bits = 5000
            if not any(v[1:]) and r.random() < 0.5:
                self.emit("newn", ri, kk, "%s:%s" % (r.choice(["mpq", "fmpq"] + (["mpz", "fmpz"] if v[0].denominator == 1 else [])), v[0]))
            elif r.random() < 0.3 and f.deg >= 1:
                self.emit("news", ri, kk, enc(self.poly_text(v, f.name)))
            else:
                self.emit("newv", ri, kk, "mpq", vec(v))
        elif c < 4:
            self.emit("newv", ri, kk, "mpq", vec(self.coeffs(f, small)))
        elif c < 5:
            t = r.choice(["int", "uint", "long", "ulong", "mpz"])
            n = r.randrange(0, max(1, f.deg) + 1)
            lo, hi = RANGE.get(t, (-10 ** 30, 10 ** 30))
            self.emit("newv", ri, kk, t, vec([max(lo, min(hi, self.integer(5 if small else None))) for _ in range(n)]) if n else "v:")
        elif c < 6:
            self.emit("gen", ri, kk)
            bits = 2
        elif c < 7:
            self.emit("newn", ri, kk, self.number(NUMT + ["fmpz", "fmpq"]))
        elif c < 8:
            self.emit(r.choice(["new", "zero", "one"]), ri, kk)
            bits = 1
        elif c < 9 and f.deg >= 1:
            self.emit("news", ri, kk, enc(self.poly_text(self.coeffs(f, small), f.name)))
        elif c < 11 and f.deg >= 2:
            bits = self.tiny(k, i)
        elif c < 12 and f.deg >= 2:
            n = max(1, f.deg)
            m = r.choice([n, n + 1, n + 3])
            self.emit("new", ri, kk)
            self.emit("c_setpoly", ri, vec([self.rational() if not small else r.randrange(-5, 6) for _ in range(m)]))
        else:
            self.emit("newv", ri, kk, "mpq", vec(self.coeffs(f, True)))
            bits = 10
        self.R[i] = (f, bits)
        return i

    def tiny(self, k, i, scale=True):
        """b*alpha - a for a convergent a/b, possibly scaled and shifted by a simple rational"""
        r = self.rng
        f = self.K[k]
        cs = polys.convergents(f.p, f.iv, r.choice([3, 8, 15, 30, 60]))
        if not cs:
            self.emit("gen", "r%d" % i, "k%d" % k)
            return 2
        a, b = cs[-1] if r.random() < 0.7 else r.choice(cs)
        s = Fr(1)
        shift = Fr(0)
        if scale:
            s = r.choice([Fr(1), Fr(-1), Fr(1), Fr(-1, 2 ** r.randrange(60)), Fr(r.randrange(1, 10), r.randrange(1, 10))])
            shift = r.choice([Fr(0), Fr(0), Fr(self.integer()), Fr(self.integer(), 2), Fr(self.integer(60), 2 ** r.choice([53, 54, 55, 60])), self.rational()])
        v = [-a * s + shift, b * s] + [0] * (max(1, f.deg) - 2)
        if r.random() < 0.2:  # alpha - a/b
            v = [Fr(-a, b) + shift, Fr(1)] + [0] * (f.deg - 2)
        self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec(v))
        return 64 * 4

    def poly_text(self, v, name, style=None):
        """a text of the polynomial with coefficients v in one of the accepted styles"""
        r = self.rng
        style = r.randrange(4) if style is None else style
        sp = (lambda: " " * r.choice([0, 0, 1, 2])) if style else (lambda: "")
        ms = []
        for e, c in enumerate(v):
            c = Fr(c)
            if c == 0 and r.random() < 0.8:
                continue
            mag, neg = abs(c), c < 0
            co = str(mag)
            if style >= 2 and r.random() < 0.3 and mag.denominator == 1:
                co = "%d/%d" % (mag * 3, 3)
            s = sp() + ("-" if neg else "+" if ms or r.random() < 0.2 else "") + sp()
            if style >= 2 and r.random() < 0.15:  # several signs
                s = s + r.choice(["+", "--", "- -", "+ +", "-+ -"]) + sp()
                if s.strip()[0] not in "+-":
                    s = "+" + s
            if e == 0:
                t = co
            else:
                x = name if e == 1 and r.random() < 0.8 else name + sp() + "^" + sp() + str(e) if r.random() < 0.85 or name[-1].isdigit() else name + str(e)
                if mag == 1 and r.random() < 0.8:
                    t = x
                else:
                    t = co + (sp() + "*" + sp() if r.random() < 0.85 or name[0] == "/" else sp()) + x
            ms.append(s + t)
        if r.random() < 0.3:
            r.shuffle(ms)
            ms = [m if m.strip()[0] in "+-" else "+" + m for m in ms]
        return "".join(ms) if ms else "0"

    def some(self, f=None):
        """a register that holds an element (of the field f)"""
        c = self.regs(f)
        if c and self.rng.random() < 0.95:
            return self.rng.choice(c)
        if f is None:
            return self.elem()
        for k in self.handles():
            if self.K[k] is f:
                return self.elem(k)
        return self.rng.choice(c) if c else self.elem()

    def big(self, i, cap=2500):
        return self.R[i][1] > cap

    # ---- arithmetic
    def arith_cpp(self):
        r = self.rng
        op = r.choice("+-*/")
        i = self.target()
        a = self.some()
        f, ba = self.R[a]
        if self.big(a):
            return self.elem(i=a)
        k = r.randrange(6)
        if k < 3:
            b = self.some(f) if r.random() < 0.9 else a
            if self.big(b):
                return self.elem(i=b)
            bits = (ba + self.R[b][1] + 2) if op in "*+-" else (ba + self.R[b][1]) * max(1, f.deg)
            if r.random() < 0.3:
                self.emit("inp", op, "r%d" % a, "r%d" % b)
                i = a
            else:
                if r.random() < 0.3:
                    i = r.choice([a, b])
                self.emit("bin", op, "r%d" % i, "r%d" % a, "r%d" % b)
        else:
            n = self.number(nonzero=(op == "/"))
            bits = ba + 200 if k < 5 or op != "/" else (ba + 200) * max(1, f.deg)
            if k == 3:
                self.emit("bin", op, "r%d" % i, "r%d" % a, n)
            elif k == 4:
                self.emit("inp", op, "r%d" % a, n)
                i = a
            else:
                self.emit("bin", op, "r%d" % i, n, "r%d" % a)
                if op in "-/":
                    bits = bits * (max(1, f.deg) if op == "/" else 1)
        self.R[i] = (f, bits)

    def arith_c(self):
        r = self.rng
        a = self.some()
        f, ba = self.R[a]
        if self.big(a):
            return self.elem(i=a)
        i = self.some(f)
        b = self.some(f)
        if self.big(b):
            return self.elem(i=b)
        if r.random() < 0.25:
            i = r.choice([a, b])
        op = r.choice("+-*/")
        k = r.randrange(12)
        bb = self.R[b][1]
        bits = ba + bb + 2
        ri, ra, rb = "r%d" % i, "r%d" % a, "r%d" % b
        d = max(1, f.deg)
        if k < 4:
            self.emit("c_bin", op, ri, ra, rb)
            bits = bits * (d if op == "/" else 1)
        elif k < 7:
            self.emit("c_bin", op, ri, ra, self.number(CT, nonzero=(op == "/")))
            bits = ba + 200
        elif k < 8:
            self.emit("c_qbin", r.choice("-/"), ri, "fmpq:%s" % self.rational(), ra)
            bits = (ba + 200) * d
        elif k < 9:
            self.emit(*r.choice([["c_neg", ri, ra], ["c_set", ri, ra], ["c_inv", ri, ra], ["c_setnf", ri, ra, "#%d" % r.choice([2, 53, 64, 200])]]))
            bits = ba * d
        elif k < 10:
            e = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 13])
            if ba * e > 3000:
                e = 2
            self.emit("c_pow", ri, ra, "#%d" % e)
            bits = ba * max(1, e)
        elif k < 11:
            self.emit("c_setn", ri, self.number(CT + ["mpz", "mpq"]))
            bits = 200
        else:
            self.emit(r.choice(["c_zero", "c_one", "c_gen"]), ri)
            bits = 3
        self.R[i] = (f, bits)

    def power(self):
        r = self.rng
        a = self.some()
        f, ba = self.R[a]
        i = self.target()
        e = r.choice([0, 1, 2, 3, 4, 5, 6, 9, 17, -1, -2, -3, -5, r.randrange(7, 70), -r.randrange(4, 20)])
        if ba * abs(e) * (max(1, f.deg) if e < 0 else 1) > 4000:
            e = r.choice([0, 1, 2]) if ba < 2000 else 1
        if r.random() < 0.01:
            self.emit("newn", "r%d" % a, "k%d" % self.handle(), "mpq:%s" % r.choice(["2", "-2", "3", "1/2", "-3/2"]))
            self.emit(r.choice(["pow", "powf"]), "r%d" % i, "r%d" % a, "#%d" % (r.choice([1, -1]) * r.choice([1023, 1024, 4097, 32767, 32768, 65535, 65536, 65537, 70001])))
            self.emit("newd", "r%d" % i)
            self.emit("newd", "r%d" % a)
            self.R[i] = self.R[a] = (self.Q, 1)
            return
        if r.random() < 0.06:
            self.emit("newq", "r%d" % a, r.choice(["int:0", "int:1", "int:-1"]))
            self.R[a] = (self.Q, 1)
            e = r.choice([2147483647, 2147483646, 1000000001] + ([-2147483648, -2147483647, -99999] if "int:0" not in self.out[-1] else []))
            self.R[i] = (self.Q, 1)
            f, ba = self.Q, 1
            self.emit(r.choice(["pow", "powf"]), "r%d" % i, "r%d" % a, "#%d" % e)
            return
        self.emit(r.choice(["pow", "powf"]), "r%d" % i, "r%d" % a, "#%d" % e)
        self.R[i] = (f, max(1, ba * abs(e) * (max(1, f.deg) if e < 0 else 1)))

    def unary(self):
        i, a = self.target(), self.some()
        self.emit(self.rng.choice(["neg", "pos"]), "r%d" % i, "r%d" % a)
        self.R[i] = self.R[a]

    def near(self, a):
        """a register with an element close or equal to the one in a"""
        r = self.rng
        f = self.R[a][0]
        i = self.target()
        if i == a:
            i = (i + 1) % self.NR
        k = r.randrange(4)
        self.emit("newc", "r%d" % i, "r%d" % a)
        self.R[i] = self.R[a]
        if k == 1:
            self.emit("inp", "+", "r%d" % i, "mpq:1/%d" % (2 ** r.choice([1, 10, 60, 100, 200])))
            self.R[i] = (f, self.R[a][1] + 200)
        elif k == 2:
            hs = [h for h in self.handles() if self.K[h] is f]
            if hs and f.deg >= 2:
                j = (i + 1) % self.NR
                if j == a:
                    j = (j + 1) % self.NR
                self.tiny(hs[0], j, scale=False)
                self.R[j] = (f, 200)
                self.emit("inp", r.choice("+-"), "r%d" % i, "r%d" % j)
                self.R[i] = (f, self.R[a][1] + 200)
        elif k == 3:
            self.emit("neg", "r%d" % i, "r%d" % a)
        return i

    # ---- queries
    def compare(self):
        r = self.rng
        a = self.some()
        f = self.R[a][0]
        b = self.near(a) if r.random() < 0.4 else self.some(f)
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        k = r.randrange(10)
        ra, rb = "r%d" % a, "r%d" % b
        if k < 3:
            self.emit("rel", op, ra, rb)
        elif k < 5:
            self.emit("rel", op, *([ra, self.number()] if r.random() < 0.5 else [self.number(), ra]))
        elif k < 6:
            self.emit("c_cmp", ra, rb)
        elif k < 7:
            self.emit(r.choice(["c_cmp", "c_eq"]), ra, self.number(CT))
        elif k < 8:
            self.emit("c_eq", ra, rb)
        elif k < 9:
            self.emit(r.choice(["sgn", "c_sgn"]), ra)
        else:
            self.emit("is", ra)

    def compare_rat(self):
        """compare with rationals that are extremely close (convergents, bounds of the ball)"""
        r = self.rng
        hs = [h for h in self.handles() if self.K[h].deg >= 2]
        if not hs:
            return self.compare()
        k = r.choice(hs)
        f = self.K[k]
        cs = polys.convergents(f.p, f.iv, r.choice([5, 20, 40, 80]))
        if not cs:
            return
        a, b = r.choice(cs)
        i = self.target()
        n = r.choice([1, 1, -1, 3])
        sh = r.choice([0, 0, 1, -7])
        self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec([sh, n] + [0] * (f.deg - 2)))
        self.R[i] = (f, 10)
        q = Fr(a, b) * n + sh
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        z = q.numerator // q.denominator + r.choice([0, 1])
        for _ in range(2):
            c = r.randrange(4)
            if c == 0:
                self.emit("c_cmp", "r%d" % i, "fmpq:%s" % q)
            elif c == 1:
                self.emit("rel", op, "r%d" % i, "mpq:%s" % q)
            elif c == 2:
                self.emit("rel", op, "mpq:%s" % q, "r%d" % i)
            else:
                t = r.choice(["si", "fmpz", "ui"])
                if abs(z) < 2 ** 62:
                    self.emit("c_cmp", "r%d" % i, "%s:%s" % (t, max(z, 0) if t == "ui" else z))

    def compare_close(self):
        """rationals and elements that agree far beyond the stored precision"""
        r = self.rng
        k = self.handle()
        f = self.K[k]
        i, j = r.sample(range(self.NR), 2)
        q = r.choice([Fr(0), Fr(1), self.rational(), Fr(self.integer(), 10 ** 20 + 39)])
        e = Fr(r.choice([-1, 1]), r.choice([3 ** r.choice([30, 60, 100, 200]), 2 ** r.choice([60, 70, 130, 300]), 1]))
        if r.random() < 0.15:
            e = Fr(0)
        if f.deg < 2 or r.random() < 0.5:
            self.emit("newn", "r%d" % i, "k%d" % k, "mpq:%s" % q)
            self.emit("newn", "r%d" % j, "k%d" % k, "mpq:%s" % (q + e))
        else:
            v = self.coeffs(f, True)
            w = list(v)
            w[r.randrange(len(w))] += e
            self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec(v))
            self.emit("newv", "r%d" % j, "k%d" % k, "mpq", vec(w))
        self.R[i] = self.R[j] = (f, 400)
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        for _ in range(2):
            c = r.randrange(5)
            ra, rb = ("r%d" % i, "r%d" % j) if r.random() < 0.5 else ("r%d" % j, "r%d" % i)
            if c < 2:
                self.emit("rel", op, ra, rb)
            elif c < 3:
                self.emit("c_cmp", ra, rb)
            elif c < 4:
                self.emit("c_cmp", ra, "fmpq:%s" % (q + r.choice([0, e, 2 * e])))
            else:
                self.emit("c_eq", ra, rb)

    def relatives(self, q):
        """rationals that share something with q: sign, numerator, denominator, low words, integer part"""
        r = self.rng
        n, d = q.numerator, q.denominator
        c = [q, q, -q, abs(q), -abs(q), Fr(n), Fr(d), Fr(n, d + 1), Fr(n + 1, d), Fr(n - 1, d), q + 2 ** 32, q - 2 ** 64, q + 2 ** 64, Fr(n + 2 ** 64, d),
             Fr(n - 2 ** 64, d), Fr(n + 2 ** 32, d), Fr(n, d + 2 ** 64), Fr(n, d + 2 ** 32), Fr(n % 2 ** 64, d), Fr(n % 2 ** 32, d), Fr(n // d), Fr(n // d + 1), 2 * q, q / 2, q + Fr(1, 2),
             Fr(n) * 2 ** 64, Fr(n, d * 2 ** 64), Fr(n, 2 * d + 1)]
        if n:
            c += [1 / q, -1 / q]
        return r.choice(c)

    def typed(self, q, types):
        """a literal for q with one of the types that can hold it"""
        ts = [t for t in types if t in ("mpq", "fmpq") or (q.denominator == 1 and (t not in RANGE or RANGE[t][0] <= q <= RANGE[t][1]))]
        return "%s:%s" % (self.rng.choice(ts), q)

    def compare_like(self):
        """compare with numbers that agree in some part of their representation"""
        r = self.rng
        k = self.handle()
        f = self.K[k]
        i = self.target()
        j = (i + 1) % self.NR
        q = self.rational()
        if r.random() < 0.3:
            q = Fr(self.integer() * 2 ** r.choice([0, 1, 32, 64]), r.choice([1, 2, 3, 6, 7]))
        v = [q] + [0] * (f.deg - 1)
        if f.deg > 1 and r.random() < 0.2:
            v[r.randrange(1, f.deg)] = r.choice([1, -1, Fr(1, 2 ** 80)])
        self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec(v))
        self.R[i] = (f, 300)
        for _ in range(3):
            x = self.relatives(q)
            op = r.choice(["==", "==", "!=", "<", "<=", ">", ">="])
            c = r.randrange(8)
            if c < 3:
                t = ["r%d" % i, self.typed(x, NUMT)]
                if r.random() < 0.4:
                    t.reverse()
                self.emit("rel", op, *t)
            elif c < 5:
                self.emit(r.choice(["c_eq", "c_eq", "c_cmp"]), "r%d" % i, self.typed(x, CT))
            else:
                w = list(v)
                if r.random() < 0.6:
                    w[0] = x
                elif len(w) > 1:
                    m = r.randrange(1, len(w))
                    w[m] = r.choice([0, -w[m], w[m] + 1, self.relatives(Fr(w[m]))])
                k2 = self.handle() if not any(w[1:]) and not any(v[1:]) else k
                f2 = self.K[k2]
                self.emit("newv", "r%d" % j, "k%d" % k2, "mpq", vec((w + [0] * f2.deg)[:f2.deg]))
                self.R[j] = (f2, 300)
                if k2 != k or c < 7:
                    t = ["r%d" % i, "r%d" % j]
                    if r.random() < 0.5:
                        t.reverse()
                    self.emit("rel", op, *t)
                else:
                    self.emit(r.choice(["c_eq", "c_eq", "c_cmp"]), "r%d" % i, "r%d" % j)
        self.emit("is", "r%d" % i)

    def deep(self):
        """decisions that need thousands of bits"""
        r = self.rng
        hs = [h for h in self.handles() if 2 <= self.K[h].deg <= 6]
        if not hs:
            return self.elem()
        k = r.choice(hs)
        f = self.K[k]
        n = r.choice([600, 1500, 3000, 5000, 9000, 18000])
        a = polys.root_floor(f.p, f.iv, n)
        if a is None:
            return
        i, j = r.sample(range(self.NR), 2)
        q = Fr(a + r.choice([0, 1]), 2 ** n)
        m = r.choice([Fr(0), Fr(0), Fr(self.integer(8)), Fr(self.integer(8), 2)])
        s = r.choice([1, -1, 3])
        rest = [0] * (f.deg - 2)
        self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec([m - s * q, Fr(s)] + rest))
        c = r.randrange(8)
        if c == 0:
            self.emit(r.choice(["sgn", "c_sgn"]), "r%d" % i)
        elif c == 1:
            self.emit("c_cmp", "r%d" % i, "fmpq:%s" % m)
        elif c == 2:
            self.emit("newv", "r%d" % j, "k%d" % k, "mpq", vec([m, Fr(s)] + rest))
            self.R[j] = (f, 20)
            self.emit("c_cmp", "r%d" % j, "fmpq:%s" % (s * q + m))
        elif c == 3:
            self.emit("rel", r.choice(["<", "<=", ">", ">=", "==", "!="]), "r%d" % i, "mpq:%s" % m)
        elif c < 6:
            self.emit(r.choice(["floor", "ceil", "c_floor", "c_ceil"]), "r%d" % i)
        elif c == 6:
            self.emit("c_getd", "r%d" % i, "#%d" % r.randrange(5)) if n < 4000 else self.emit("sgn", "r%d" % i)
        else:
            self.emit("newn", "r%d" % j, "k%d" % k, "mpq:%s" % m)
            self.R[j] = (f, 20)
            self.emit("rel", r.choice(["<", "<=", ">", ">="]), "r%d" % j, "r%d" % i)
        self.emit("newn", "r%d" % i, "k%d" % k, "mpq:%s" % m)
        self.R[i] = (f, 20)

    def infinite(self):
        """numbers whose first enclosure is useless: quotients by elements that are tiny"""
        r = self.rng
        hs = [h for h in self.handles() if self.K[h].deg >= 2]
        if not hs:
            return self.elem()
        k = r.choice(hs)
        f = self.K[k]
        i, j = r.sample(range(self.NR), 2)
        cs = polys.convergents(f.p, f.iv, r.choice([25, 40, 60]))
        if not cs:
            return
        a, b = cs[-1]
        self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec([-a, b] + [0] * (f.deg - 2)))
        self.R[i] = (f, 200)
        self.elem(k, j, small=True)
        c = r.randrange(5)
        if c == 0:
            self.emit("c_inv", "r%d" % j, "r%d" % i)
        elif c == 1:
            self.emit("bin", "/", "r%d" % j, self.number(["int", "mpq"], nonzero=True), "r%d" % i)
        elif c == 2:
            self.emit("c_bin", "/", "r%d" % j, "r%d" % j, "r%d" % i)
        elif c == 3:
            self.emit("inp", "/", "r%d" % j, "r%d" % i)
        else:
            self.emit("pow", "r%d" % j, "r%d" % i, "#%d" % r.choice([-1, -2]))
        self.R[j] = (f, 400 * f.deg)
        if r.random() < 0.3:
            self.emit("neg", "r%d" % j, "r%d" % j)
        c = r.randrange(8)
        rj = "r%d" % j
        if c == 0:
            self.emit(r.choice(["floor", "ceil", "c_floor", "c_ceil"]), rj)
        elif c == 1:
            self.emit(r.choice(["sgn", "c_sgn"]), rj)
        elif c == 2:
            self.emit("c_getd", rj, "#%d" % r.randrange(5))
        elif c == 3:
            self.emit("str", rj, "#%d" % r.choice([2, 3, 4, 5]))
        elif c == 4:
            self.emit("rel", r.choice(["<", ">", "<="]), rj, self.number(["int", "mpq", "mpz"]))
        elif c == 5:
            self.emit("c_cmp", rj, "r%d" % self.some(f))
        elif c == 6:
            self.emit("c_getarb", rj, "#%d" % r.choice([10, 64, 200]))
        else:
            self.emit("hash", rj)

    def rounding(self):
        r = self.rng
        a = self.some()
        f = self.R[a][0]
        k = r.randrange(8)
        if k < 5:
            self.emit(r.choice(["floor", "ceil", "floorf", "ceilf", "c_floor", "c_ceil"]), "r%d" % a)
        elif k < 7:
            b = self.some(f)
            if r.random() < 0.3:  # exact multiples
                m = self.target()
                if m != b:
                    self.emit("bin", "*", "r%d" % m, "r%d" % b, "mpz:%d" % self.integer())
                    self.R[m] = (f, self.R[b][1] + 200)
                    if r.random() < 0.5:
                        self.emit("inp", r.choice("+-"), "r%d" % m, "mpq:1/%d" % 2 ** r.choice([3, 100]))
                    a = m
            self.emit(r.choice(["floordiv", "c_fdiv"]), "r%d" % a, "r%d" % b)
        else:
            if self.R[a][1] > 500:
                return
            b = self.some(f)
            n = r.choice([1, 2, 3, 5, 8])
            self.emit("c_cfrac", "r%d" % a, "r%d" % b, "#%d" % n)
            self.R[b] = (f, self.R[a][1] * (n + 1) * max(1, f.deg))

    def rounding_rat(self):
        """floor, ceiling and quotients of rationals in all representations, integers, zero"""
        r = self.rng
        k = self.handle()
        i, j = self.target(), self.target()
        q = r.choice([Fr(0), Fr(self.integer()), self.rational(), self.rational()])
        self.emit(r.choice(["newn", "newn"]), "r%d" % i, "k%d" % k, "mpq:%s" % q)
        self.R[i] = (self.K[k], 200)
        self.emit("newn", "r%d" % j, "k%d" % k, "mpq:%s" % (self.rational() or 1))
        self.R[j] = (self.K[k], 200)
        self.emit(r.choice(["floor", "ceil", "c_floor", "c_ceil"]), "r%d" % i)
        self.emit(r.choice(["floordiv", "c_fdiv"]), "r%d" % i, "r%d" % j)
        f = self.K[k]
        if f.deg >= 2:
            # zero in a register that was used before
            self.emit("gen", "r%d" % j, "k%d" % k)
            self.emit("bin", "-", "r%d" % i, "r%d" % j, "r%d" % j)
            self.emit(r.choice(["floor", "ceil", "c_floor", "c_ceil"]), "r%d" % i)
            self.emit("c_fdiv", "r%d" % i, "r%d" % j)

    def doubles(self):
        r = self.rng
        c = r.randrange(6)
        if c < 3:
            a = self.some()
        else:
            k = self.handle()
            f = self.K[k]
            a = self.target()
            # close to (midpoints of) doubles, near the ends of the range
            e = r.choice([0, 0, 0, 5, -5, 52, 53, 900, -900, -1020, -1022, -1023, -1040, -1073, -1074, -1075, -1076, -1080, 1020, 1023, 1024, 1030])
            m = r.choice([2 ** 53 - 1, 2 ** 52, 2 ** 53, r.randrange(2 ** 52, 2 ** 53), 2 ** 54 - 1, 2 ** 54 - 1 - 2])
            half = r.choice([0, 0, Fr(1, 2), Fr(1, 2), Fr(1, 4)])
            q = (Fr(m) + half) * Fr(2) ** (e - 52)
            q *= r.choice([1, -1])
            if r.random() < 0.5:
                q += q * r.choice([-1, 1]) * Fr(1, 2 ** r.choice([60, 107, 120, 200]))
            if c == 3 or f.deg < 2:
                self.emit("newn", "r%d" % a, "k%d" % k, "mpq:%s" % q)
            elif c == 4:
                cs = polys.convergents(f.p, f.iv, r.choice([10, 40]))
                if not cs:
                    return
                u, v = cs[-1]
                s = q * Fr(1, 2 ** r.choice([0, 55, 60, 70, 110, 150, 200, 400]))
                self.emit("newv", "r%d" % a, "k%d" % k, "mpq", vec([q - u * s, v * s] + [0] * (f.deg - 2)))
            else:
                self.emit("newv", "r%d" % a, "k%d" % k, "mpq", vec([0, q] + [0] * (f.deg - 2)))
            self.R[a] = (f, 1100)
        k = r.randrange(7)
        if k == 0:
            self.emit("dbl", "r%d" % a)
        elif k < 5:
            for m in r.sample(range(5), 2):
                self.emit("c_getd", "r%d" % a, "#%d" % m)
        else:
            base = r.choice([64, 64, 64, 53, 100, 128, 128, 300])
            if r.random() < 0.3:  # around the accuracy of what is stored
                for n in range(base - 8, base + 2):
                    self.emit("c_getarb", "r%d" % a, "#%d" % n)
            else:
                self.emit("c_getarb", "r%d" % a, "#%d" % r.choice([2, 3, 10, 53, 64, 100, 128, 200, 500, 1000]))

    def components(self):
        r = self.rng
        c = r.randrange(9)
        a = self.some()
        if c < 4:
            self.emit("parts", "r%d" % a)
        elif c < 5:
            self.emit(r.choice(["num", "tompq", "tompz"]), "r%d" % a)
        elif c < 8:
            k = self.handle()
            f = self.K[k]
            i = self.target()
            n = r.choice([self.number(), "mpz:%d" % self.integer(), "mpq:%s" % self.rational()])
            self.emit("newn", "r%d" % i, "k%d" % k, n)
            self.R[i] = (f, 200)
            self.emit(r.choice(["num", "tompq", "tompz", "tompz", "parts"]), "r%d" % i)
        else:
            self.emit("finfo", "k%d" % self.handle())

    def hashes(self):
        r = self.rng
        a = self.some()
        b = self.near(a) if r.random() < 0.6 else self.some(self.R[a][0])
        f = self.R[a][0]
        c = r.randrange(6)
        if c < 2:  # same value by another route
            j = self.target()
            if j not in (a, b):
                n = self.number(nonzero=True)
                self.emit("bin", "+", "r%d" % j, "r%d" % a, n)
                self.emit("inp", "-", "r%d" % j, n)
                self.R[j] = (f, self.R[a][1] + 400)
                self.emit("hash", "r%d" % j)
        elif c < 3:  # refine in between
            hs = [h for h in self.handles() if self.K[h] is f]
            if hs:
                self.emit("refine", "k%d" % hs[0], "#%d" % r.choice([100, 200, 500]))
            self.emit("c_eval", "r%d" % a, "#%d" % r.choice([70, 150, 300]))
        elif c < 4:  # a rational in several fields
            n = self.number(["int", "mpq", "mpz"])
            for k in r.sample(self.handles(), min(2, len(self.handles()))):
                j = self.target()
                self.emit("newn", "r%d" % j, "k%d" % k, n)
                self.R[j] = (self.K[k], 100)
                self.emit("hash", "r%d" % j)
            j = self.target()
            self.emit("newq", "r%d" % j, n)
            self.R[j] = (self.Q, 100)
            self.emit("hash", "r%d" % j)
        elif c < 5:
            g = self.regs(f)
            s, q = [r.choice(g) for _ in range(4)], [r.choice(g) for _ in range(3)]
            self.emit("uset", *["r%d" % x for x in s], ":", *["r%d" % x for x in q])
        self.emit("hash", "r%d" % a)
        self.emit("hash", "r%d" % b)
        if r.random() < 0.1 and self.handles():
            self.emit("fhash", "k%d" % self.handle())

    def refinement(self):
        r = self.rng
        h = self.handles()
        if not h:
            return self.field()
        k = r.choice(h)
        c = r.randrange(5)
        if c < 2:
            self.emit("refine", "k%d" % k, "#%d" % r.choice([2, 10, 64, 80, 130, 200, 400, 1000]))
        elif c < 4:
            self.emit("c_eval", "r%d" % self.some(), "#%d" % r.choice([2, 10, 64, 100, 200, 500]))
        else:
            self.emit("c_check", "r%d" % self.some(), "#%d" % r.choice([10, 64, 200]))

    def text(self):
        r = self.rng
        a = self.some()
        f = self.R[a][0]
        c = r.randrange(12)
        i = self.target()
        if c < 3:
            self.emit("str", "r%d" % a, "#%d" % r.choice([1, 2, 3, 4, 5]))
        elif c < 5:
            self.emit("strx", "r%d" % a)
        elif c < 6:
            self.emit("c_str", "r%d" % a, enc(r.choice(self.names)), "#%d" % r.choice([3, 10, 20, 50]), "#%d" % r.choice([1, 2, 3, 4, 5]))
        elif c < 8:
            self.emit("strrt", "r%d" % i, "r%d" % a, "#%d" % r.choice([1, 3, 5]))
            self.R[i] = self.R[a]
        elif c < 10:
            g = self.regs(f)
            n = r.randrange(1, 4)
            s = [r.choice(g) for _ in range(n)]
            t = r.sample(range(self.NR), n)
            self.emit("streamrt", *["r%d" % x for x in s], ":", *["r%d" % x for x in t])
            vals = [self.R[x] for x in s]
            for x, v in zip(t, vals):
                self.R[x] = v
        elif c < 11:
            k = self.handle()
            f = self.K[k]
            n = r.randrange(1, 4)
            ts = r.sample(range(self.NR), n)
            parts = []
            for _ in ts:
                t = self.poly_text(self.coeffs(f, True), f.name, 0)
                if r.random() < 0.5:
                    t = "(" + self.poly_text(self.coeffs(f, True), f.name) + r.choice(["", " "]) + r.choice(["", " ~ 1.2345", " ~ x"]) + ")"
                parts.append(t)
            bad = -1
            if r.random() < 0.3:  # one of them is malformed
                bad = r.randrange(n)
                g = f.name
                parts[bad] = r.choice(["", "+", "1/", "1//2", "2*", "y+1", "(1", "(", "(%s" % g, "%s^" % g, "%s^-1" % g, "1.5", "(1+)", "(y)", "(2 2%s)" % g, "1%s+*" % g, "1/0*", "*2", "^2", "(^)"])
            elif r.random() < 0.1:
                v = self.coeffs(f, True)
                v[r.randrange(len(v))] = Fr(self.integer(r.choice([3500, 14000])), r.choice([1, 3, 7]))
                parts[r.randrange(n)] = self.poly_text(v, f.name, 0)
            s = r.choice([" ", "\t", "\n", " "]).join(parts) + r.choice(["", " ", " rest", ")", " (1"] if parts[-1][-1:] == ")" else ["", " ", " rest", " (1"])
            self.emit("read", "k%d" % k, *["r%d" % x for x in ts], enc(s))
            for x in ts[:bad] if bad >= 0 else ts:
                self.R[x] = (f, 15000)
            if bad >= 0 and self.R[ts[bad]] is None:
                self.R[ts[bad]] = (self.Q, 1)
        else:
            k = self.handle()
            f = self.K[k]
            s = self.garbage(f.name)
            self.emit("news", "r%d" % i, "k%d" % k, enc(s))
            self.R[i] = self.R[i] or (f, 100)

    def text2(self):
        r = self.rng
        a = self.some()
        c = r.randrange(5)
        if c < 2:
            self.emit("print", "r%d" % a, enc(r.choice(self.names)), "#%d" % r.choice([3, 10, 20]), "#%d" % r.choice([1, 2, 3, 4, 5]))
        elif c < 3:
            self.emit("fprint", "k%d" % self.handle())
        else:
            self.emit("depr", "r%d" % a, "#%d" % r.choice([1, 2, 3, 4, 5]))

    def garbage(self, name):
        r = self.rng
        if r.random() < 0.4:  # a text that is well-formed but for one or two characters
            t = list(self.poly_text([r.randrange(-5, 6) if r.random() < 0.7 else Fr(r.randrange(-9, 10), r.randrange(1, 5)) for _ in range(r.randrange(1, 4))], name))
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(len(t) + 1)
                if r.random() < 0.3 and name in "".join(t):  # behind the name of the variable
                    k = "".join(t).rindex(name) + len(name)
                ch = r.choice("__#@!=<>,;:[]{}|&%$?\\'\"`~.()*^/+- \tAZaz")
                t[k:k + r.choice([0, 0, 1])] = [] if r.random() < 0.2 else [ch]
            return re.sub(r"(\d{3})\d+", r"\1", "".join(t))
        toks = [name, name + "^", "^", "2", "3/4", "0", "/", "*", "+", "-", " ", " ", "1", name + "2", "y", "(", ")", "~", ".5", "17", "e", "**", "1/0"]
        return re.sub(r"(\d{3})\d+", r"\1", "".join(r.choice(toks) for _ in range(r.randrange(0, 8))))

    def field_text(self):
        self.emit(self.rng.choice(["fstr", "con"]), "k%d" % self.handle())

    # ---- objects
    def objects(self):
        r = self.rng
        c = r.randrange(16)
        a, i = self.some(), self.target()
        if c < 2:
            self.emit("newc", "r%d" % i, "r%d" % a)
            self.R[i] = self.R[a]
        elif c < 4:
            self.emit("asg", "r%d" % i, "r%d" % a)
            if self.R[i]:
                self.R[i] = self.R[a]
        elif c < 6:
            self.emit(r.choice(["newm", "asgm"]), "r%d" % i, "r%d" % a)
            if i != a and (self.R[i] or self.out[-1].startswith("newm")):
                self.R[i], self.R[a] = self.R[a], None
        elif c < 8:
            self.emit(r.choice(["swap", "stdswap"]), "r%d" % i, "r%d" % a)
            self.R[i], self.R[a] = (self.R[a], self.R[i]) if self.R[i] else (self.R[i], self.R[a])
        elif c < 9:
            self.emit("drop", "r%d" % i)
            self.R[i] = None
        elif c < 10:
            self.emit("newd", "r%d" % i)
            self.R[i] = (self.Q, 1)
        elif c < 11:
            self.emit(r.choice(["asgn", "newq"]), "r%d" % i, self.number(NUMT + ["fmpz", "fmpq"]))
            self.R[i] = self.R[i] and (self.Q, 200)
        elif c < 12:
            k = self.handle()
            self.emit("mkp", "k%d" % r.randrange(self.NK), "r%d" % a)
            self.K[int(self.out[-1].split()[1][1:])] = self.R[a][0]
        elif c < 13:
            k = r.randrange(self.NK)
            self.emit("dropk", "k%d" % k)
            self.K[k] = None
        elif c < 14:
            h = self.handle()
            k = r.randrange(self.NK)
            self.emit(r.choice(["mkh", "mkh", "mkmv"]), "k%d" % k, "k%d" % h)
            self.K[k] = self.K[h]
            if self.out[-1].startswith("mkmv") and k != h:
                self.K[h] = None
        elif c < 15:
            g = self.regs()
            s = r.sample(g, min(len(g), r.randrange(1, 5)))
            self.emit("rot", *["r%d" % x for x in s])
            for x in s:
                self.R[x] = None
            for x in s:
                self.elem(i=x) if r.random() < 0.3 else None
        else:
            f = self.R[a][0]
            g = self.regs(f)
            s = r.sample(g, min(len(g), 5))
            self.emit("sort", *["r%d" % x for x in s])
            m = max(self.R[x][1] for x in s)
            for x in s:
                self.R[x] = (f, m)

    def cross(self):
        """operations between different fields"""
        r = self.rng
        if len(self.handles()) < 2:
            self.field()
        a, b = self.some(), self.some()
        i = self.target()
        c = r.randrange(11)
        ops = r.choice("+-*/")
        if r.random() < 0.4:  # make one rational in its field
            k = self.handle()
            b = self.target()
            self.emit("newn", "r%d" % b, "k%d" % k, self.number(["int", "mpq"], nonzero=True))
            self.R[b] = (self.K[k], 100)
            if r.random() < 0.5:
                a, b = b, a
        elif r.random() < 0.2:  # rational in two fields, often with a common numerator or denominator
            a, b = r.sample(range(self.NR), 2)
            for j in a, b:
                k = self.handle()
                self.emit("newn", "r%d" % j, "k%d" % k, "mpq:%s" % Fr(r.choice([1, 2, 3, -3]), r.choice([1, 2, 4, 5, 2 ** 64 + 1])))
                self.R[j] = (self.K[k], 100)
        if not self.R[a] or not self.R[b] or self.big(a, 1000) or self.big(b, 1000):
            return
        fa, fb = self.R[a][0], self.R[b][0]
        if c < 3:
            self.emit("bin", ops, "r%d" % i, "r%d" % a, "r%d" % b)
            self.R[i] = None
        elif c < 5:
            self.emit("inp", ops, "r%d" % a, "r%d" % b)
            self.R[a] = None
        elif c < 7:
            self.emit("rel", r.choice(["==", "!=", "<", "<=", ">", ">="]), "r%d" % a, "r%d" % b)
        elif c < 9:
            self.emit("floordiv", "r%d" % a, "r%d" % b)
        else:
            k = self.handle()
            self.emit("newe", "r%d" % i, "k%d" % k, "r%d" % a)
            self.R[i] = None

    # ---- fields again
    def again(self):
        """ask for a field that (may) exist already"""
        r = self.rng
        hs = self.handles()
        if not hs:
            return self.field()
        h = r.choice(hs)
        f = self.K[h]
        k = r.randrange(self.NK)
        c = r.randrange(8)
        if f is self.Q:
            self.emit("mkq", "k%d" % k)
            self.K[k] = f
            return
        if c < 4:
            n = r.choice([f.name, f.name, f.name, r.choice(self.names)])
            i = f.idx if r.random() < 0.7 else None
            self.field(k, f.p, i, n)
            if n == f.name and self.K[k].idx == f.idx:
                self.K[k] = f
            else:
                for g in self.K:
                    if g and g.p == f.p and g.name == n and g.idx == self.K[k].idx:
                        self.K[k] = g
        elif c < 5:
            self.emit("mkcopy", "k%d" % k, "k%d" % h, enc(f.name))
            self.K[k] = f
        elif c < 6:
            self.emit("c_copy", "k%d" % k, "k%d" % h, enc(f.name), "#%d" % r.choice([70, 200]))
            self.K[k] = f
        elif c < 7:
            self.emit("mkcon", "k%d" % k, "k%d" % h)
            self.K[k] = f
        elif r.random() < 0.5:
            self.neighbours()
        else:
            self.emit("feq", "k%d" % h, "k%d" % r.choice(hs))

    def neighbours(self):
        """two fields for roots next to each other, known by balls that overlap, the roots often equal as doubles"""
        r = self.rng
        if r.random() < 0.6:
            p = polys.mignotte(r.choice([3, 3, 5]), r.choice([1000, 2 ** 20, 2 ** 36 + 1, 2 ** 40, 3 * 2 ** 41]))
        else:
            p = polys.random_irreducible(r)
        iv = polys.roots(p)
        if len(iv) < 2 or len(p) < 3:
            return
        i = r.randrange(len(iv) - 1)
        if r.random() < 0.7:
            i = min(range(len(iv) - 1), key=lambda j: iv[j + 1][1] - iv[j][0])
        x, y = iv[i], iv[i + 1]
        w = y[1] - x[0]
        while True:
            x, y = polys.refine(p, x, w), polys.refine(p, y, w)
            g = y[0] - x[1]
            if g > 64 * w:
                break
            w /= 4
        bs = []
        e = 0
        while Fr(1, 2 ** e) > g / 2 ** 12:
            e += 1
        for z, sg in ((x, 1), (y, -1)):
            m = polys.fdiv2(z[0] + sg * g * Fr(3, 10), e)
            rad = polys.fdiv2(g / 2, e)
            L, H = Fr(m - rad, 2 ** e), Fr(m + rad, 2 ** e)
            if polys.roots_cc(polys.sturm(p), L, H) != 1 or not polys.at(p, L) or not polys.at(p, H):
                return
            bs.append((m, -e, rad, -e))
        name = r.choice(self.names)
        ks = r.sample(range(self.NK), 3)
        prec = r.choice([2, 2, 10, 64])
        for k, b, j in zip(ks, bs, (i, i + 1)):
            self.emit("c_mk", "k%d" % k, vec(p), enc(name), ball(b), "#%d" % prec)
            self.K[k] = next((f for f in self.K if f and f.p == p and f.idx == j and f.name == name), None) or Field(p, j, name)
        self.emit("feq", "k%d" % ks[0], "k%d" % ks[1])
        j = r.randrange(2)
        self.emit("c_mk", "k%d" % ks[2], vec(p), enc(name), ball(polys.ball_of(p, (x, y)[j], r.choice([2, 10, e + 20]))), "#%d" % r.choice([2, 64, 100]))
        self.K[ks[2]] = self.K[ks[j]]
        for j in (0, 1):
            self.emit("feq", "k%d" % ks[2], "k%d" % ks[j])

    def archives(self):
        r = self.rng
        b = r.randrange(4)
        items = []
        src = []
        for _ in range(r.randrange(1, 5)):
            if r.random() < 0.75 and self.regs():
                x = r.choice(self.regs())
                items.append("r%d" % x)
                src.append(self.R[x])
            elif self.handles():
                x = r.choice(self.handles())
                items.append("k%d" % x)
                src.append(self.K[x])
        if not items:
            return
        fmt = r.choice(["json", "json", "bin", "xml", "pbin"])
        self.emit("save", "#%d" % b, fmt, *items)
        c = r.randrange(5)
        if c == 0:  # drop the originals, maybe everything
            for x in items:
                if x[0] == "r":
                    self.emit("drop", x)
                    self.R[int(x[1:])] = None
                else:
                    self.emit("dropk", x)
                    self.K[int(x[1:])] = None
        elif c == 1:
            for i in range(self.NR):
                if self.R[i]:
                    self.emit("drop", "r%d" % i)
                    self.R[i] = None
            for i in range(self.NK):
                if self.K[i]:
                    self.emit("dropk", "k%d" % i)
                    self.K[i] = None
        elif c == 2 and self.handles():
            k = r.choice(self.handles())
            self.emit("refine", "k%d" % k, "#%d" % r.choice([100, 300]))
        rs, ks = r.sample(range(self.NR), len(items)), r.sample(range(self.NK), len(items))
        dst = []
        for x, s, i, k in zip(items, src, rs, ks):
            if x[0] == "r":
                dst.append("r%d" % i)
                self.R[i] = s
            else:
                dst.append("k%d" % k)
                self.K[k] = s
        self.emit("load", "#%d" % b, fmt, *dst)
        if r.random() < 0.3 and self.regs():
            g = self.regs()
            n = r.randrange(1, 4)
            s = [r.choice(g) for _ in range(n)]
            t = r.sample(range(self.NR), n)
            self.emit("vecrt", r.choice(["json", "bin"]), *["r%d" % x for x in s], ":", *["r%d" % x for x in t])
            vals = [self.R[x] for x in s]
            for x, v in zip(t, vals):
                self.R[x] = v

    def archives2(self):
        """archives written and read step by step, with other things happening in between"""
        r = self.rng
        b = r.randrange(4)
        fmt = r.choice(["json", "json", "bin", "xml", "pbin"])
        self.emit("aopen", "#%d" % b, fmt)
        kinds = []
        for _ in range(r.randrange(1, 5)):
            if r.random() < 0.5:
                self.field()
            if r.random() < 0.7:
                x = self.elem() if r.random() < 0.6 else self.some()
                self.emit("aput", "r%d" % x)
                kinds.append("r")
                if r.random() < 0.6:
                    self.emit("drop", "r%d" % x)
                    self.R[x] = None
            elif self.handles():
                x = self.handle()
                self.emit("aput", "k%d" % x)
                kinds.append("k")
            if r.random() < 0.6:
                # forget whole fields
                for x in r.sample(range(self.NK), r.choice([1, 4, 12])):
                    if self.K[x]:
                        f = self.K[x]
                        for i in range(self.NR):
                            if self.R[i] and self.R[i][0] is f and r.random() < 0.9:
                                self.emit("drop", "r%d" % i)
                                self.R[i] = None
                        self.emit("dropk", "k%d" % x)
                        self.K[x] = None
        self.emit("aclose")
        if r.random() < 0.3:
            for i in range(self.NR):
                self.emit("drop", "r%d" % i)
            for i in range(self.NK):
                self.emit("dropk", "k%d" % i)
            self.R, self.K = [None] * self.NR, [None] * self.NK
        if fmt == "json" and r.random() < 0.4:
            self.emit("legacy", "#%d" % b, "#%d" % r.choice([1, 2, 3]))
        self.emit("ropen", "#%d" % b, fmt)
        for k in kinds:
            if r.random() < 0.4:
                self.emit("rget", "re" if k == "r" else "kf")
            else:
                x = r.randrange(12)
                self.emit("rget", k + str(x))
                if k == "r":
                    self.R[x] = None
                else:
                    self.K[x] = None
            if r.random() < 0.3:
                self.field()
            if r.random() < 0.3:
                x = r.randrange(12)
                self.emit("drop", "r%d" % x)
                self.R[x] = None
        self.emit("rclose")

    def randoms(self):
        r = self.rng
        if r.random() < 0.3 or not self.regs():
            k = r.randrange(self.NK)
            self.emit("frand", "k%d" % k, "#%d" % r.randrange(10 ** 6), "#%d" % r.choice([3, 4, 5, 7]), "#%d" % r.choice([2, 64, 128]), "#%d" % r.choice([3, 10, 40]), enc(r.choice(self.names)))
            self.K[k] = None
            i = self.target()
            self.emit("gen", "r%d" % i, "k%d" % k)
            self.R[i] = None
        else:
            self.emit("erand", "r%d" % r.choice(self.regs()), "#%d" % r.randrange(10 ** 6), "#%d" % r.choice([1, 10, 70]))

    # ---- creation of fields
    def creation(self):
        r = self.rng
        c = r.randrange(13)
        k = r.randrange(self.NK)
        kk = "k%d" % k
        p = polys.random_irreducible(r)
        iv = polys.roots(p)
        name = r.choice(self.names)
        if c < 3:
            return self.field(k)
        if c < 4:  # a ball with several or no roots, or around a close pair
            if r.random() < 0.5:
                p = polys.mignotte(r.choice([3, 4, 5]), r.choice([10, 1000, 10 ** 6]))
                iv = polys.roots(p)
            a = r.choice(iv)
            if r.random() < 0.5:  # balls that end (or consist of a point) just before, at or after the root
                if r.random() < 0.4:
                    p = [r.choice([0, 1, -1, self.integer(8), self.integer(70)]), r.choice([1, -1, 2, 3, -4, 2 ** 40, self.integer(40) or 1])]
                    p = polys.prim(p)
                    a = polys.roots(p)[0]
                n = r.choice([3, 20, 62, 64, 100, 130])
                lo, hi = polys.refine(p, a, Fr(1, 2 ** n))
                q = r.choice([polys.fdiv2(lo, n), polys.fdiv2(lo, n) + 1, polys.fdiv2(hi, n) + 1, polys.fdiv2(hi, n) + 2, polys.fdiv2(lo, n) - 1])  # times 2^-n
                w = r.choice([None, -n, -n, 1 - n, -n // 2, -n // 2, 0])
                if w is None:
                    b = (q, -n, 0, 0)
                else:  # [q, q + 2^w] or [q - 2^w, q], with radius 2^(w - 1)
                    b = ((q << 1) + r.choice([-1, 1]) * 2 ** (w + n), -n - 1, 1, w - 1)
                self.emit("c_mk", kk, vec(p), enc(name), ball(b), "#%d" % r.choice([64, 64, 2, 100, 200]))
                self.K[k] = None
                return
            m = polys.refine(p, a, Fr(1, 2 ** 20))[0]
            e = r.choice([0, 1, 2, 3, -2, -5, -10, -20, -30])
            off = r.choice([0, 1, 2, -1, -3])
            b = (polys.fdiv2(m, 40) + off * 2 ** max(0, 38 + e), -40, r.randrange(2 ** 20, 2 ** 21), e - 21)
            self.emit("c_mk", kk, vec(p), enc(name), ball(b), "#64")
            self.K[k] = None
            return
        if c < 5:
            d = r.choice([Fr(2), Fr(3), Fr(2, 3), Fr(5, 7), Fr(10 ** 20 + 39), Fr(1, 10 ** 9 + 7), Fr(3, 2 ** 40), Fr(2 ** 60, 3)])
            n = r.choice([2, 2, 3, 4, 5, 7, 1])
            self.emit("nth", kk, "fmpq:%s" % d, "#%d" % n, enc(name), "#%d" % r.choice([2, 64, 200]))
            self.K[k] = None
            return
        if c < 8:
            if r.random() < 0.3:
                p = polys.mignotte(r.choice([3, 4, 5]), r.choice([3, 30, 1000]))
            n = r.choice([1, 2, 3, 8, 20])
            ks = r.sample(range(self.NK), min(len(polys.roots(p)), n, 6))
            self.emit("embs", vec(p), enc(name), "#%d" % r.choice([2, 64, 128]), "#%d" % n, *["k%d" % x for x in ks])
            for j, x in enumerate(ks):
                self.K[x] = Field(p, j, name)
            return
        if c < 9:  # bad names, bad text
            bad = r.choice(["", "2x", "x y", "a-b", "$", "x+1", "é"[:0] or "x*"])
            b = polys.ball_of(p, r.choice(iv), 30)
            self.emit("mk", kk, vec(p), enc(bad), enc(polys.ball_text(b, r)), "#64")
            self.K[k] = None
            return
        if c < 10:
            self.emit("mk", kk, vec(p), enc(name), enc(r.choice(["1.2 + 3", "abc", "", "1.4 +/-", "[1 +/- 2", "1..2", "2 +/- 1e5", "1e400 +/- 1"])), "#64")
            self.K[k] = None
            return
        if c < 11:  # text of the polynomial
            t = self.poly_text(p, name)
            if r.random() < 0.3:
                t = self.garbage(name)
            b = polys.ball_of(p, r.choice(iv), 30)
            if r.random() < 0.2:
                t = t.replace(name, r.choice(self.names))
            q = parse_poly(t, name)
            if q is not None and len(q) > 1 and (not any(q) or not polys.irreducible(polys.prim(q))):
                t = r.choice(["", "+", "2*", "x^", "1+" + name + "^-1"])  # reducible polynomials are not in the domain
            self.emit("mks", kk, enc(t), enc(name), enc(polys.ball_text(b, r)), "#%d" % r.choice([64, 100]))
            self.K[k] = None
            return
        if c < 12:  # embeddings as a function that become good only later
            i = r.choice(iv)
            w = [polys.ball_text((0, 0, 1, r.choice([5, 10, 40])), r), r.choice([polys.ball_text(polys.ball_of(p, i, 1), r), "0 +/- 100"]),
                 polys.ball_text(polys.ball_of(p, i, 60), r)]
            if r.random() < 0.5:  # only after many attempts
                w[:1] = w[:1] * r.randrange(3, 9)
            if r.random() < 0.2:
                w[1] = "junk"
            if r.random() < 0.2:
                w = w[:2]
            self.emit("mkfun", kk, vec(p), enc(name), *[enc(t) for t in w], "#%d" % r.choice([32, 64]))
            self.K[k] = None
            return
        self.emit("finfo", "k%d" % self.handle())

    # ---- polynomial utilities
    def poly_count(self):
        r = self.rng
        p = polys.random_squarefree(r)
        if r.random() < 0.1:
            p = [-c for c in p]
        k = r.randrange(20)
        if r.random() < 0.25:  # (mostly) dyadic rational roots, negative, small or large
            e = r.choice([0, 0, 2, 5, -3, -12, 8])
            m = [1]
            for c in set(r.sample(range(-9, 10), r.randrange(1, 6))):
                t = r.choice([1, 1, 1, 2, 4, 3])
                q = Fr(c, t) * Fr(2) ** e * r.choice([1, 1, -1])
                l = [-q.numerator, q.denominator]
                if any(sum(Fr(q) ** i * x for i, x in enumerate(m)) == 0 for _ in [0]):
                    continue
                m = [(m[i] if i < len(m) else 0) * l[0] + (m[i - 1] * l[1] if i else 0) for i in range(len(m) + 1)]
            p = m
        if r.random() < 0.02:
            p = r.choice([[], [1], [-7], [0, 1], [0, -3]])
            self.emit(r.choice(["p_sqf", "p_abs", "p_has"]) if p else r.choice(["p_sqf", "p_abs"]), vec(p) if p else "v:")
            return
        if r.random() < 0.03:
            self.emit("prand", "#%d" % r.randrange(10 ** 6), "#%d" % r.choice([3, 4, 6]), "#%d" % r.choice([3, 10, 60]))
            return
        v = vec(p)
        if k < 6:
            self.emit(r.choice(["p_sturm", "p_vca01", "p_n01"]), v)
        elif k < 9:
            self.emit(r.choice(["p_nvca", "p_nub", "p_has"]), v)
        elif k < 13:
            self.emit("p_iso", v, *(["#1"] if r.random() < 0.4 else []))
        elif k < 15:
            self.emit("p_ub", v)
        elif k < 16:
            self.emit("p_desc", v, "#%d" % r.choice([0, 1, 2, 2, 3, 5, 20]))
        elif k < 17:
            q = polys.random_squarefree(r, r.choice([1, 2]))
            m = list(p)
            for _ in range(r.choice([1, 2])):
                m = [sum(m[i] * q[n - i] for i in range(len(m)) if 0 <= n - i < len(q)) for n in range(len(m) + len(q) - 1)]
            self.emit("p_sqf", vec(m if r.random() < 0.8 else p))
        elif k < 18:
            a, b = self.small_rat(), self.small_rat()
            if a != b:
                self.emit("p_scale", v, "mpq:%s" % min(a, b), "mpq:%s" % max(a, b))
        elif k < 19:
            self.emit(r.choice(["p_abs", "p_at1"]), v)
        else:
            i = r.choice(polys.roots(p) or [(Fr(0), Fr(1))])
            m = polys.refine(p, i, Fr(1, 2 ** 30))[0]
            b = (polys.fdiv2(m, 40) + r.choice([0, 0, 12345, -2 ** 30]), -40, r.randrange(2 ** 15, 2 ** 21), r.choice([-50, -40, -30, -25, -21, -18]))
            self.emit("p_uniq", v, ball(b), "#%d" % r.choice([30, 64]))

    def small_rat(self):
        r = self.rng
        return Fr(r.randrange(-12, 13), r.choice([1, 1, 2, 3, 4, 8, 7]))

    def poly_step(self):
        r = self.rng
        p = polys.random_irreducible(r)
        if len(p) == 2:
            return
        iv = r.choice(polys.roots(p))
        b = polys.wide_ball(p, iv, r) if r.random() < 0.4 else polys.ball_of(p, iv, r.choice([0, 3, 10, 40, 64, 100]))
        k = r.randrange(10)
        prec = r.choice([2, 5, 10, 30, 53, 64, 64, 100, 128, 300])
        if k < 3:
            self.emit("p_newton", vec(p), ball(b), "#%d" % prec)
        elif k < 6:
            self.emit("p_bisect", vec(p), ball(b), "#%d" % prec)
            if r.random() < 0.5:
                self.emit("p_steps", vec(p), ball(b), "#%d" % prec, "#%d" % r.randrange(2))
        elif k < 7:
            self.emit("p_bisarf", vec(p), ball(b), "#%d" % prec)
        elif k < 9:
            n = r.randrange(1, 8)
            c = [self.rational() if r.random() < 0.4 else self.integer() for _ in range(n)]
            if r.random() < 0.3:
                c = [Fr(x).numerator for x in c]
            if r.random() < 0.4:
                self.emit("p_evalf", vec([int(Fr(x).numerator) for x in c] if r.random() < 0.6 else c), ball(b), "#4000")
            else:
                self.emit("p_eval", vec(c), ball(b), "#%d" % prec)
        else:
            q = [self.integer() for _ in range(r.randrange(1, 6))] + [r.choice([-5, 3, 1])]
            self.emit("p_cond", vec(q), ball((b[0], b[1], b[2], b[3] - 40)), "#%d" % r.choice([16, 64]))

    def poly_text_op(self):
        r = self.rng
        name = r.choice(self.names)
        if r.random() < 0.6:
            s = self.poly_text([self.rational() if r.random() < 0.4 else r.randrange(-5, 6) for _ in range(r.randrange(1, 6))], name)
        else:
            s = self.garbage(name)
        self.emit("p_str", vec([r.randrange(-3, 4) for _ in range(r.randrange(0, 5))]) if r.random() < 0.5 else "v:", enc(s), enc(name if r.random() < 0.95 else r.choice(["", "2", "x-", "_"])))

    # ---- programs
    def program(self, weights, steps, fields=2, leak=0):
        self.reset()
        for _ in range(fields):
            self.field()
        for _ in range(3):
            self.elem()
        names, ws = zip(*weights.items())
        for _ in range(steps):
            getattr(self, self.rng.choices(names, ws)[0])()
        if leak and self.rng.random() < leak:
            self.emit("leak", "#40")
