"""Polynomials with isolated real roots for the generators (not an oracle)."""
import math
from fractions import Fraction as Fr
from functools import lru_cache
from math import gcd


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def content(p):
    g = 0
    for c in p:
        g = gcd(g, c)
    return g


def prim(p):
    g = content(p)
    return [c // g for c in p] if g else []


def deriv(p):
    return [i * p[i] for i in range(1, len(p))]


def prem(p, q):
    p = list(p)
    m = 1
    while len(p) >= len(q):
        l, s = q[-1], len(p) - len(q)
        t = p[-1]
        p = [c * l for c in p]
        m *= l
        for i, c in enumerate(q):
            p[i + s] -= t * c
        p = trim(p)
    return p, m


def sturm(p):
    seq = [list(p), deriv(p)]
    while seq[-1]:
        r, m = prem(seq[-2], seq[-1])
        r = prim([-c for c in r] if m > 0 else r)
        seq.append(r)
    seq.pop()
    return seq


def sgn(x):
    return (x > 0) - (x < 0)


def at(p, x):
    """sign of p at the fraction x"""
    n, d = x.numerator, x.denominator
    acc, dp = 0, 1
    for c in reversed(p):
        acc = acc * n + c * dp
        dp *= d
    return sgn(acc)


def var(signs):
    v, last = 0, 0
    for s in signs:
        if s and last and s != last:
            v += 1
        if s:
            last = s
    return v


def roots_oc(seq, a, b):
    return var([at(q, a) for q in seq]) - var([at(q, b) for q in seq])


def roots_cc(seq, a, b):
    return roots_oc(seq, a, b) + (at(seq[0], a) == 0)


def squarefree(p):
    return len(p) > 1 and len(sturm(p)[-1]) == 1


def isolate(p):
    """isolating dyadic intervals ]a, b] of the real roots of a squarefree p"""
    seq = sturm(p)
    # 2 max |p_i / p_n|^(1 / (n - i)) bounds the roots
    n, l = len(p) - 1, abs(p[-1]).bit_length() - 1
    B = 2 ** max([0] + [2 + max(0, -(-(abs(c).bit_length() - l) // (n - i))) for i, c in enumerate(p[:-1]) if c])
    todo, out = [(Fr(-B), Fr(B))], []
    while todo:
        a, b = todo.pop()
        n = roots_oc(seq, a, b)
        if n == 1:
            out.append((a, b))
        elif n > 1:
            m = (a + b) / 2
            todo += [(m, b), (a, m)]
    return sorted(out)


_finest = {}


def refine(p, iv, width):
    """an interval ]a, b] inside iv around its root, at most width wide"""
    if len(p) == 2:
        x = Fr(-p[0], p[1])
        return (x, x)
    key = (tuple(p), iv)
    a, b = _finest.get(key, iv)
    if b - a <= width:
        return (a, b)
    sb = at(p, b)
    if sb == 0:
        return (b, b)
    d = [i * c for i, c in enumerate(p)][1:]
    want = 0
    while Fr(1, 2 ** want) > width:
        want += 16
    while b - a > width:
        w = b - a
        if w < Fr(1, 2 ** 12):
            # a Newton step from the middle, verified by signs
            k = min(want + 8, max(16, int(2 * (w.denominator.bit_length() - w.numerator.bit_length()) - 8)))
            m = (a + b) / 2
            pv, dv = value(p, m), value(d, m)
            if dv:
                x = m - pv / dv
                n = (x.numerator << k) // x.denominator
                lo, hi = Fr(n - 4, 2 ** k), Fr(n + 5, 2 ** k)
                if a < lo and hi < b and at(p, lo) == -sb and at(p, hi) == sb:
                    a, b = lo, hi
                    continue
        m = (a + b) / 2
        s = at(p, m)
        if s == 0:
            return (m, m)
        if s == sb:
            b = m
        else:
            a = m
    _finest[key] = (a, b)
    return (a, b)


def value(p, x):
    n, d = x.numerator, x.denominator
    acc, dp = 0, 1
    for c in reversed(p):
        acc = acc * n + c * dp
        dp *= d
    return Fr(acc, dp // d) if p else Fr(0)


# irreducibility via reduction modulo primes
def polmod(p, q, m):
    p = [c % m for c in p]
    p = trim(p)
    inv = pow(q[-1], -1, m)
    while len(p) >= len(q):
        t, s = p[-1] * inv % m, len(p) - len(q)
        for i, c in enumerate(q):
            p[i + s] = (p[i + s] - t * c) % m
        p = trim(p)
    return p


def mulmod(a, b, q, m):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return polmod(r, q, m)


def gcdmod(a, b, m):
    while b:
        a, b = b, polmod(a, b, m)
    return a


def irred_mod(p, m):
    """Rabin's test"""
    n = len(p) - 1
    if p[-1] % m == 0:
        return False
    q = trim([c % m for c in p])
    x = polmod([0, 1], q, m)

    def frob(k):  # x^(m^k)
        r = x
        for _ in range(k):
            e, b, acc = m, r, [1]
            while e:
                if e & 1:
                    acc = mulmod(acc, b, q, m)
                b = mulmod(b, b, q, m)
                e >>= 1
            r = acc
        return r
    ps = [d for d in range(2, n + 1) if n % d == 0 and all(d % e for e in range(2, d))]
    for d in ps:
        y = frob(n // d)
        t = list(y) + [0] * max(0, 2 - len(y))
        t[1] -= 1
        if len(gcdmod(q, trim([c % m for c in t]), m)) != 1:
            return False
    y = list(frob(n)) + [0, 0]
    y[1] -= 1
    return not polmod(trim([c % m for c in y]), q, m)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def irreducible(p):
    """True only if certainly irreducible over the rationals (and primitive)"""
    if len(p) < 2 or abs(content(p)) != 1:
        return False
    if len(p) == 2 or p in KNOWN or [-c for c in p] in KNOWN:
        return True
    for e in PRIMES:  # Eisenstein
        if p[-1] % e and all(c % e == 0 for c in p[:-1]) and p[0] % (e * e):
            return True
    return any(irred_mod(p, e) for e in PRIMES)


KNOWN = [
    [-2, 0, 1], [-5, 0, 1], [-1, -1, 1], [-3, 0, 7], [-2, 0, 0, 1], [-1, -3, 0, 1], [-1, -1, 0, 1], [1, 0, -10, 0, 1],
    [1, -4, -4, 1, 1], [-1, 3, 3, -4, -1, 1], [-1, -1, 0, 0, 0, 1], [576, 0, -960, 0, 352, 0, -40, 0, 1], [1, -8, -40, 8, 14, -1],
    [1, 3, -6, -4, 5, 1, -1], [-3, 0, 0, 0, 0, 0, 2], [1, 0, -16, 0, 20, 0, -8, 0, 1], [-1, 6, -5, 1], [-7, 0, 0, 0, 0, 1],
    [1, -5, -6, 7, 6], [-1, 0, 0, 0, 0, 0, 0, 3],
]


def mignotte(n, a):  # x^n - 2 (a x - 1)^2: two roots very close to 1/a
    p = [0] * (n + 1)
    p[n] = 1
    p[0] -= 2
    p[1] += 4 * a
    p[2] -= 2 * a * a
    return p


@lru_cache(maxsize=None)
def _isolate(p):
    return tuple(isolate(list(p)))


def roots(p):
    return list(_isolate(tuple(p)))


def random_irreducible(rng, deg=None, bits=None):
    """an irreducible integer polynomial with at least one real root"""
    while True:
        d = deg if deg is not None else rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, rng.choice([2, 3, 9, 10, 12, 16])])
        kind = rng.randrange(8)
        b = bits or rng.choice([2, 2, 3, 4, 8, 20, 70])
        if kind == 0 and deg is None:
            p = list(rng.choice(KNOWN))
        elif kind == 1 and d >= 3:
            p = mignotte(max(3, d), rng.choice([3, 5, 10, 100, 1000, 10 ** 6, 2 ** 33]))
        elif kind == 2 and d >= 2:  # many real roots: product of (x - i) plus a small perturbation
            p = [1]
            for i in rng.sample(range(-8, 9), d):
                p = [(p[j - 1] if j else 0) - (i * p[j] if j < len(p) else 0) for j in range(len(p) + 1)]
            p[0] += rng.choice([1, -1, 2, -2, 3])
        elif kind == 3:
            p = [rng.choice([-1, 1]) * rng.randrange(1, 50)] + [0] * (d - 1) + [rng.choice([1, 1, 2, 3, 5])]
        else:
            p = [rng.randrange(-2 ** b, 2 ** b + 1) for _ in range(d)] + [rng.choice([1, 1, rng.randrange(1, 2 ** b + 1)])]
        if rng.random() < 0.2:
            p = [-c for c in p]
        if len(p) - 1 != d and deg is not None:
            continue
        if p[-1] == 0 or not irreducible(p):
            continue
        if roots(p):
            if d < 9 and rng.random() < 0.12:  # very small or very large roots
                p = scaled(p, rng.choice([-1, 1]) * rng.choice([1, 5, 20, 50, 63, 64, 65, 90, 130, 140, 300]))
            return p


def scaled(p, k):
    """the roots divided by 2^k"""
    q = [c << (k * i if k >= 0 else -k * (len(p) - 1 - i)) for i, c in enumerate(p)]
    g = 0
    for c in q:
        g = math.gcd(g, c)
    return [c // g for c in q]


def random_squarefree(rng, deg=None):
    while True:
        d = deg if deg is not None else rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8, 10, 14])
        kind = rng.randrange(6)
        if kind == 0:  # rational, often dyadic roots
            p = [1]
            for _ in range(d):
                r = rng.choice([Fr(0), Fr(1), Fr(rng.randrange(-8, 9), 2 ** rng.randrange(4)), Fr(rng.randrange(-9, 10), rng.randrange(1, 9))])
                n, m = -r.numerator, r.denominator
                p = [(p[j] * n if j < len(p) else 0) + (p[j - 1] * m if j else 0) for j in range(len(p) + 1)]
        elif kind == 1:
            p = [rng.randrange(-3, 4) for _ in range(d + 1)]
        elif kind == 2:
            p = [rng.randrange(-2 ** 40, 2 ** 40) for _ in range(d + 1)]
        elif kind == 3 and d >= 3:
            p = mignotte(d, rng.choice([3, 7, 50, 1024, 99999]))
        elif kind == 4:  # positive or negative coefficients in blocks
            s, p = rng.choice([-1, 1]), []
            for _ in range(d + 1):
                if rng.random() < 0.3:
                    s = -s
                p.append(s * rng.randrange(0, 10 ** rng.randrange(1, 6)))
        else:
            a, b = random_irreducible(rng, max(1, d // 2)), random_irreducible(rng, max(1, d - d // 2))
            p = [0] * (len(a) + len(b) - 1)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    p[i + j] += x * y
        p = trim(p)
        if len(p) > 1 and squarefree(p):
            return p


def fdiv2(x, k):  # floor(x * 2^k)
    return (x.numerator << k) // x.denominator if k >= 0 else x.numerator // (x.denominator << -k)


def ball_of(p, iv, bits):
    """an exact ball c * 2^-k .. (c+1) * 2^-k around the root in iv, with k >= bits, isolating. (m, e, r, f)"""
    seq = sturm(p)
    k = bits
    while True:
        a, b = refine(p, iv, Fr(1, 2 ** (k + 4)) if k >= 0 else Fr(2 ** -k, 16))
        if a == b:  # rational root (linear): any ball around it
            c = fdiv2(a, k)
            return (2 * c + 1, -k - 1, 1, -k - 1)
        lo, hi = fdiv2(a, k), fdiv2(b, k) + 1
        if hi == lo + 1:
            L, H = Fr(lo) / Fr(2) ** k, Fr(hi) / Fr(2) ** k
            if roots_cc(seq, L, H) == 1 and at(p, L) and at(p, H):
                return (2 * lo + 1, -k - 1, 1, -k - 1)
        k += 1


def wide_ball(p, iv, rng):
    """an isolating ball that is far from minimal, not centred at the root"""
    seq = sturm(p)
    a, b = refine(p, iv, Fr(1, 4))
    best = None
    for _ in range(12):
        e = rng.randrange(-6, 8)
        mid = Fr(fdiv2(b, 8) + rng.randrange(-2 ** max(0, 8 + e - 1) - 1, 2 ** max(0, 8 + e - 1) + 2), 256)
        rad = Fr(2) ** e * Fr(rng.randrange(2 ** 10, 2 ** 11), 2 ** 10)
        L, H = mid - rad, mid + rad
        if L < a and b < H and roots_cc(seq, L, H) == 1 and at(p, L) and at(p, H):
            if best is None or rad > best[1]:
                best = (mid, rad)
    if best is None:
        return ball_of(p, iv, 0)
    mid, rad = best
    return (fdiv2(mid, 8), -8, fdiv2(rad, 20), -20)


def ball_text(b, rng):
    """decimal text of a ball that contains the ball b, not much larger"""
    m, r = Fr(b[0]) * Fr(2) ** b[1], Fr(b[2]) * Fr(2) ** b[3]
    d = 1
    while Fr(1, 10 ** d) > r / 8:
        d += 1
    mi = (m * 10 ** d).numerator // (m * 10 ** d).denominator
    ra = (r * 10 ** d).numerator // (r * 10 ** d).denominator + 2

    def dec(n):
        s = "-" if n < 0 else ""
        n = abs(n)
        t = str(n).rjust(d + 1, "0")
        return s + t[:-d] + "." + t[-d:]
    return dec(mi) + " +/- " + dec(ra) if rng.random() < 0.7 else "[" + dec(mi) + " +/- " + dec(ra) + "]"


def convergents(p, iv, n):
    """convergents a/b of the root in iv (irrational), n terms"""
    out = []
    bits = 16 * n + 64
    x, y = refine(p, iv, Fr(1, 2 ** bits))
    h0, h1, k0, k1 = 0, 1, 1, 0
    for _ in range(n):
        cx, cy = x.numerator // x.denominator, y.numerator // y.denominator
        if cx != cy or x == cx or y == cy:
            break
        h0, h1, k0, k1 = h1, cx * h1 + h0, k1, cx * k1 + k0
        out.append((h1, k1))
        x, y = 1 / (y - cx), 1 / (x - cx)
    return out


def root_floor(p, iv, n):
    """floor(2^n * root) of the irrational root of the integer polynomial p (low to high) in iv"""
    def ev(c, x, t):
        acc, d = 0, len(c) - 1
        for j in range(d, -1, -1):
            acc = acc * x + (c[j] << (t * (d - j)))
        return acc

    s = 64
    x, y = refine(p, iv, Fr(1, 2 ** s))
    sl = ev(p, x.numerator * 2 ** s // x.denominator, s)
    while True:
        l = x.numerator * 2 ** s // x.denominator
        h = -(-y.numerator * 2 ** s // y.denominator)
        sl, sh = ev(p, l, s), ev(p, h, s)
        if (sl > 0) != (sh > 0) and h - l <= 2:
            break
        s += 8
        x, y = refine(p, iv, Fr(1, 2 ** (s + 2)))
        if s > 400:
            return None
    if h - l == 2:
        if (ev(p, l + 1, s) > 0) == (sl > 0):
            l += 1
    q = [j * p[j] for j in range(1, len(p))]
    pos = sl > 0
    while s < n:
        done = False
        s2 = min(n, 2 * s - 32)
        t = s + 1
        m = 2 * l + 1
        g = ev(q, m, t)
        if g and s2 > t:
            c0 = (m << (s2 - t)) - (ev(p, m, t) << (s2 - t)) // g
            for c in (c0 - 1, c0, c0 + 1):
                if c >= l << (s2 - s) and c + 1 <= (l + 1) << (s2 - s) and (ev(p, c, s2) > 0) == pos and (ev(p, c + 1, s2) > 0) != pos:
                    l, s, done = c, s2, True
                    break
        if not done:
            for _ in range(min(16, n - s)):
                s += 1
                l = 2 * l + 1 if (ev(p, 2 * l + 1, s) > 0) == pos else 2 * l
    return l >> (s - n)
