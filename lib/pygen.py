"""Programs for the Python interface (drv/pydrv.py). Only chooses inputs."""
from fractions import Fraction as Fr

import polys
from gen import Field, Gen, enc, vec

KINDS = ["+", "-", "*", "/", "r+", "r-", "r*", "r/", "i+", "i-", "i*", "i/", "<", "<=", ">", ">=", "==", "!=", "pow", "bigpow", "new", "new1", "new3"]
BAD = ["float", "none", "str", "list", "complex", "object", "dict", "zden"]


class PyGen(Gen):
    def num(self, left=False, nonzero=False):
        r = self.rng
        while True:
            t = r.choice(["int", "int", "int", "bool"] if left else ["int", "int", "int", "bool", "mpz", "mpq", "mpq"])
            v = r.randrange(2) if t == "bool" else self.rational() if t == "mpq" else self.integer()
            if v or not nonzero:
                return "%s:%s" % (t, v)

    def field(self, k=None, p=None, idx=None, name=None, how=None):
        r = self.rng
        p = p or polys.random_irreducible(r)
        iv = polys.roots(p)
        idx = r.randrange(len(iv)) if idx is None else idx
        name = name or r.choice(self.names)
        k = r.randrange(self.NK) if k is None else k
        prec = r.choice([64, 64, 64, 100, 128, 300])
        v = [Fr(c, r.choice([2, 3, 12])) for c in p] if False else p
        t = self.poly_text(v, name)
        self.emit("mks", "k%d" % k, enc(t), enc(name), enc(polys.ball_text(polys.ball_of(p, iv[idx], r.choice([8, 20, 60])), r)), "#%d" % prec)
        self.K[k] = Field(p, idx, name)
        return k

    def elem(self, k=None, i=None, small=False):
        r = self.rng
        k = self.handle() if k is None else k
        i = self.target() if i is None else i
        f = self.K[k]
        c = r.randrange(12)
        ri, kk = "r%d" % i, "k%d" % k
        bits = 100
        if c < 3:
            v = self.coeffs(f, small)
            self.emit("newv", ri, kk, r.choice(["mpq", "mpz", "int"]), vec(v[:r.randrange(len(v) + 1)] if r.random() < 0.2 else v))
        elif c < 4:
            self.emit("newv", ri, kk, r.choice(["int", "mpz"]), vec([self.integer() for _ in range(max(1, f.deg))]))
        elif c < 6:
            self.emit("gen", ri, kk)
            bits = 2
        elif c < 7:
            self.emit("newn", ri, kk, self.num())
        elif c < 8:
            self.emit(r.choice(["new", "zero", "one"]), ri, kk)
        elif c < 9:
            self.emit("news", ri, kk, enc(self.poly_text(self.coeffs(f, small), f.name)))
        elif c < 10 and f.deg >= 2:
            bits = self.tiny(k, i)
        elif c < 11:
            n = self.num()
            if r.random() < 0.5:
                q, d = self.rational(), r.choice([1, 1, 2, 6, 10 ** 20])
                n = "str:%d/%d" % (q.numerator * d, q.denominator * d) if r.random() < 0.7 else "str:%s" % q
            self.emit("newq", ri, n)
            self.R[i] = ("Q", 100)
            return i
        else:
            self.emit("newv", ri, kk, "mpq", vec(self.coeffs(f, True)))
        self.R[i] = (f, bits)
        return i

    def field_of(self, i):
        return self.R[i][0] if self.R[i] else "Q"

    def pair(self, same=0.85):
        """two registers, usually of the same field"""
        a = self.some()
        if self.rng.random() < same and self.R[a][0] != "Q":
            return a, self.some(self.R[a][0])
        return a, self.some()

    def py_arith(self):
        r = self.rng
        op = r.choice("+-*/")
        a, b = self.pair(0.9)
        if self.big(a, 1500) or self.big(b, 1500):
            return self.elem(i=a if self.big(a, 1500) else b, small=True)
        t = self.target()
        n = self.R[a][1] + self.R[b][1] + 70
        f = self.R[a][0] if self.R[a][0] != "Q" else self.R[b][0]
        c = r.randrange(6)
        if c < 2:
            self.emit("bin", op, "r%d" % t, "r%d" % a, "r%d" % b)
        elif c < 3:
            self.emit("bin", op, "r%d" % t, "r%d" % a, self.num(nonzero=op == "/"))
            f = self.R[a][0]
        elif c < 4:
            self.emit("bin", op, "r%d" % t, self.num(left=True), "r%d" % b)
            f = self.R[b][0]
        elif c < 5:
            t = a
            self.emit("inp", op, "r%d" % a, "r%d" % b if r.random() < 0.8 else "r%d" % a)
        else:
            t = a
            self.emit("inp", op, "r%d" % a, self.num(nonzero=op == "/"))
            f = self.R[a][0]
        self.R[t] = (f, n * (6 if op == "/" else 1))

    def py_alias(self):
        """several names of one object, one of them changed"""
        r = self.rng
        if r.random() < 0.5:
            k = self.handle()
            a = self.target()
            self.emit(r.choice(["gen", "gen", "zero", "one"]), "r%d" % a, "k%d" % k)
            self.R[a] = (self.K[k], 2)
        else:
            a = self.some()
        b = self.target()
        self.emit(r.choice(["asg", "asg", "pos", "newc", "strrt"]), "r%d" % b, "r%d" % a)
        self.R[b] = self.R[a]
        self.emit("inp", r.choice("+-*"), "r%d" % b, self.num() if r.random() < 0.7 else "r%d" % a)
        self.R[b] = (self.R[a][0], 2 * self.R[a][1] + 200)
        if self.handles():
            self.emit("finfo", "k%d" % self.handle())

    def py_power(self):
        r = self.rng
        a = self.some()
        if self.R[a][1] > 300:
            a = self.elem(small=True)
        t = self.target()
        n = r.choice([0, 1, 2, 3, 4, 5, 7, -1, -2, -3])
        self.emit(r.choice(["pow", "pow", "powf"]), "r%d" % t, "r%d" % a, "#%d" % n)
        self.R[t] = (self.R[a][0], self.R[a][1] * (abs(n) + 1) * (1 if n >= 0 else 4))

    def py_rel(self):
        r = self.rng
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        a, b = self.pair(0.75)
        c = r.randrange(5)
        if c < 2:
            self.emit("rel", op, "r%d" % a, "r%d" % b)
        elif c < 3:
            self.emit("rel", op, "r%d" % a, self.num())
        elif c < 4:
            self.emit("rel", op, self.num(left=True), "r%d" % b)
        else:
            self.emit(r.choice(["sgn", "is"]), "r%d" % a)

    def py_like(self):
        """compare with numbers that agree in some part of their representation"""
        r = self.rng
        k = self.handle()
        f = self.K[k]
        i = self.target()
        q = self.rational()
        v = [q] + [0] * (f.deg - 1)
        if f.deg > 1 and r.random() < 0.2:
            v[r.randrange(1, f.deg)] = 1
        self.emit("newv", "r%d" % i, "k%d" % k, "mpq", vec(v))
        self.R[i] = (f, 200)
        for _ in range(3):
            x = self.relatives(q)
            op = r.choice(["==", "==", "!=", "<", "<=", ">", ">="])
            if x.denominator == 1 and r.random() < 0.4:
                self.emit("rel", op, "int:%s" % x, "r%d" % i)
            else:
                self.emit("rel", op, "r%d" % i, "%s:%s" % (r.choice(["int", "mpz", "mpq"]) if x.denominator == 1 else "mpq", x))

    def py_cross(self):
        """elements of different fields, then the same operations again on elements of one field"""
        r = self.rng
        hs = self.handles()
        if len(hs) < 2:
            self.field()
            hs = self.handles()
        k, l = r.sample(hs, 2) if len(hs) > 1 else (hs[0], hs[0])
        a, b, c = r.sample(range(self.NR), 3)
        self.emit("gen", "r%d" % a, "k%d" % k)
        self.emit("gen", "r%d" % b, "k%d" % l)
        self.emit("bin", r.choice("+-*"), "r%d" % c, "r%d" % a, "int:%d" % r.choice([1, 2, -3]))
        self.R[a], self.R[b], self.R[c] = (self.K[k], 2), (self.K[l], 2), (self.K[k], 4)
        t = r.choice([i for i in range(self.NR) if i not in (a, b, c)])
        for x, y in [(a, b), (a, c), (c, a)]:
            w = r.randrange(4)
            if w < 2:
                self.emit("rel", r.choice(["==", "!=", "<", "<=", ">", ">="]), "r%d" % x, "r%d" % y)
            elif w < 3:
                self.emit("bin", r.choice("+-*/"), "r%d" % t, "r%d" % x, "r%d" % y)
                self.R[t] = None
            else:
                self.emit("newe", "r%d" % t, "k%d" % l, "r%d" % y)
                self.R[t] = None
        self.R[t] = None

    def py_deep(self):
        """decisions that need more than a thousand bits"""
        r = self.rng
        hs = [h for h in self.handles() if 2 <= self.K[h].deg <= 4]
        if not hs:
            return self.elem()
        k = r.choice(hs)
        f = self.K[k]
        n = r.choice([60, 200, 1100, 2500])
        a = polys.root_floor(f.p, f.iv, n)
        if a is None:
            return
        i, j = r.sample(range(self.NR), 2)
        q = Fr(a + r.choice([0, 1]), 2 ** n)
        rest = [0] * (f.deg - 2)
        self.emit("gen", "r%d" % i, "k%d" % k)
        self.emit("newn", "r%d" % j, "k%d" % k, "mpq:%s" % q)
        self.emit("rel", r.choice(["<", "<=", ">", ">=", "==", "!="]), *r.sample(["r%d" % i, "r%d" % j], 2))
        self.emit("newv", "r%d" % j, "k%d" % k, "mpq", vec([-q, Fr(1)] + rest))
        self.emit(r.choice(["sgn", "floor", "ceil", "is"]), "r%d" % j)
        self.emit("rel", r.choice(["<", "<=", ">", ">=", "==", "!="]), "r%d" % j, "int:0")
        self.emit("newv", "r%d" % j, "k%d" % k, "mpq", vec([0, 1] + rest))
        self.R[i] = self.R[j] = (f, 20)

    def py_query(self):
        r = self.rng
        a, b = self.pair()
        c = r.randrange(9)
        ra, rb = "r%d" % a, "r%d" % b
        if c < 2:
            self.emit(r.choice(["floor", "ceil"]), ra)
        elif c < 3:
            self.emit("floordiv", ra, rb)
        elif c < 4:
            self.emit("dbl", ra)
        elif c < 5:
            self.emit("parts", ra)
        elif c < 6:
            self.emit(r.choice(["tompq", "num"]), ra)
        elif c < 8:
            self.emit("strx", ra)
        else:
            self.emit("is", ra)

    def py_hash(self):
        """hashes, sets and sorting of equal elements computed in different ways"""
        r = self.rng
        a = self.some()
        c = r.randrange(4)
        b, t = r.sample(range(self.NR), 2)
        if c == 0:
            self.emit("hash", "r%d" % a)
            if t != a:
                self.emit("bin", "+", "r%d" % t, "r%d" % a, "int:%d" % r.choice([1, 5, 2 ** 70]))
                self.R[t] = (self.R[a][0], self.R[a][1] + 100)
            if t != a and b != t:
                self.emit("bin", "-", "r%d" % b, "r%d" % t, "r%d" % t)
                self.emit("bin", "+", "r%d" % b, "r%d" % b, "r%d" % a)
                self.R[b] = self.R[t]
                self.emit("hash", "r%d" % b)
        elif c == 1:
            x = [self.some(self.R[a][0] if self.R[a][0] != "Q" else None) for _ in range(r.randrange(1, 5))] + [a]
            y = [self.some(self.R[a][0] if self.R[a][0] != "Q" else None) for _ in range(2)] + [a]
            self.emit("uset", *["r%d" % i for i in x], ":", *["r%d" % i for i in y])
        elif c == 2:
            x = list({self.some(self.R[a][0] if self.R[a][0] != "Q" else None) for _ in range(4)} | {a})
            r.shuffle(x)
            self.emit("sort", *["r%d" % i for i in x])
            for i in x:
                self.R[i] = (self.R[a][0], max(self.R[j][1] for j in x))
        else:
            x = [self.some(self.R[a][0] if self.R[a][0] != "Q" else None) for _ in range(r.randrange(1, 5))]
            self.emit("py_sum", "r%d" % t, ":", *["r%d" % i for i in x])
            self.R[t] = (self.R[x[0]][0], sum(self.R[i][1] for i in x) + 10)

    def py_pickle(self):
        r = self.rng
        n = r.randrange(1, 5)
        it = ["r%d" % self.some() if r.random() < 0.7 else "k%d" % self.handle() for _ in range(n)]
        b = r.randrange(3)
        self.emit("save", "#%d" % b, "pickle", *it)
        if r.random() < 0.3:  # the fields may be gone when the data is read
            for x in set(it):
                self.emit("dropk" if x[0] == "k" else "drop", x)
                if x[0] == "k":
                    self.K[int(x[1:])] = None
                else:
                    self.R[int(x[1:])] = None
            if r.random() < 0.5:
                self.emit("py_gc")
        for _ in range(r.choice([1, 1, 2])):
            rs, ks = r.sample(range(self.NR), n), r.sample(range(self.NK), n)
            self.emit("load", "#%d" % b, "pickle", *["%s%d" % (x[0], (rs if x[0] == "r" else ks)[j]) for j, x in enumerate(it)])
            for j, x in enumerate(it):
                if x[0] == "r":
                    self.R[rs[j]] = None
                else:
                    self.K[ks[j]] = None

    def py_fields(self):
        """the ways in which Python objects keep fields"""
        r = self.rng
        c = r.randrange(10)
        k, l = self.handle(), r.randrange(self.NK)
        if c < 3:
            self.emit("mkgp", "k%d" % l, "k%d" % k)
            self.K[l] = self.K[k]
        elif c < 5:
            a = self.some()
            if self.R[a][0] == "Q":
                return self.emit("mkq", "k%d" % l) or self.K.__setitem__(l, None)
            self.emit("mkp", "k%d" % l, "r%d" % a)
            self.K[l] = None
        elif c < 6:
            self.emit("mkh", "k%d" % l, "k%d" % k)
            self.K[l] = self.K[k]
        elif c < 7:
            self.emit("dropk", "k%d" % k)
            self.K[k] = None
        elif c < 8:
            a = self.some()
            self.emit("drop", "r%d" % a)
            self.R[a] = None
            self.emit("py_gc")
        elif c < 9:
            f = self.K[k]
            self.field(l, f.p, f.idx, f.name)
            self.emit("feq", "k%d" % k, "k%d" % l)
            self.emit("fhash", "k%d" % k)
            self.emit("fhash", "k%d" % l)
        else:
            m = self.handle()
            self.emit("feq", "k%d" % k, "k%d" % m)
            self.emit("fstr", "k%d" % k)
            self.emit("finfo", "k%d" % k)

    def py_create(self):
        """requests for fields and elements that may not make sense"""
        r = self.rng
        k = r.randrange(self.NK)
        p = polys.random_irreducible(r)
        iv = polys.roots(p)
        name = r.choice(self.names)
        i = r.choice(iv)
        c = r.randrange(7)
        t, nm, e = self.poly_text(p, name), name, polys.ball_text(polys.ball_of(p, i, 30), r)
        if c < 1:
            e = r.choice(["1.2 + 3", "abc", "", "1.4 +/-", "[1 +/- 2", "1..2", "1e400 +/- 1"])
        elif c < 2:
            e = polys.ball_text(polys.wide_ball(p, i, r), r)
        elif c < 3:
            nm = r.choice(["", "2x", "x y", "a-b", "$", "x+1", "x*"])
        elif c < 4:
            t = r.choice(["", "+", "2*", "x^", "1+" + name + "^-1"])
        elif c < 5:
            return self.field(k)
        else:
            h = self.handle()
            a = self.target()
            self.emit("news", "r%d" % a, "k%d" % h, enc(self.garbage(self.K[h].name)))
            self.R[a] = None
            return
        self.emit("mks", "k%d" % k, enc(t), enc(nm), enc(e), "#64")
        self.K[k] = None

    def py_bad(self):
        r = self.rng
        self.emit("py_bad", r.choice(KINDS), r.choice(BAD), "r%d" % self.some(), "k%d" % self.handle())

    def py_realalg(self):
        r = self.rng
        k = r.randrange(self.NK)
        name = r.choice(self.names)
        d = r.choice([2, 2, 3, 3, 4])
        for _ in range(100):
            big = 10 ** r.choice([0, 1, 3, 10, 20, 40, 60])
            p = [r.choice([-1, 1]) * r.randrange(1, 5 * big + 1)] + [r.randrange(-6, 7) * r.choice([0, 1]) for _ in range(d - 1)] + [r.choice([1, 1, 1, 2, 3, 10 ** 12 + 39])]
            if r.random() < 0.1:
                p = polys.mignotte(3, r.choice([3, 30, 1000]))
            p = polys.prim(p)
            if polys.irreducible(p) and polys.roots(p):
                break
        else:
            return
        n = len(polys.roots(p))
        i = r.choice([-1, -1, n - 1, 0, r.randrange(n)])
        self.emit("ra_mk", "k%d" % k, vec(p), "#%d" % i, enc(name))
        f = Field(p, i % n, name)
        self.K[k] = f
        for _ in range(3):
            t = self.target()
            if r.random() < 0.7:
                self.emit("ra_elem", "r%d" % t, "k%d" % k, vec([Fr(c.numerator % 10 ** 18, c.denominator) for c in self.coeffs(f)]))
            else:
                w = r.choice(["frac", "str", "int"])
                self.emit("ra_num", "r%d" % t, "k%d" % k, w, "q:%s" % (self.integer() if w == "int" else self.rational()))
            self.R[t] = (f, 100)
        # realalg fields are slow to make, so they are not kept as candidates for failed requests
        if r.random() < 0.5:
            self.emit("rel", r.choice(["<", ">", "=="]), "r%d" % t, self.num())


MIX = dict(elem=4, py_arith=8, py_alias=3, py_power=2, py_rel=5, py_like=1, py_cross=3, py_query=5, py_hash=3, py_pickle=2, py_fields=4, py_create=2, py_bad=2, py_realalg=0.4, py_deep=0.5)


def make(args):
    seed, i, programs, steps = args
    g = PyGen("C18/%s/%d" % (seed, i))
    for _ in range(programs):
        g.program(MIX, steps, 2)
    return g.out
