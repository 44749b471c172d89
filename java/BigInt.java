// TLC operator overrides for spec/BigInt.tla: arbitrary-width integers, written
// as decimal strings, evaluated with java.math.BigInteger.
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.HashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class BigInt {
    // numerals are interned strings; remember the parsed number per intern token
    private static final HashMap<UniqueString, BigInteger> cache = new HashMap<>();
    private static final StringValue[] small = new StringValue[2049];

    static BigInteger b(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        UniqueString u = ((StringValue) v).getVal();
        BigInteger r = cache.get(u);
        if (r == null) { r = new BigInteger(u.toString()); if (cache.size() > 4000000) cache.clear(); cache.put(u, r); }
        return r;
    }
    static Value s(BigInteger x) {
        if (x.bitLength() <= 10) {
            int i = x.intValue() + 1024;
            StringValue v = small[i];
            if (v == null) small[i] = v = new StringValue(x.toString());
            return v;
        }
        return new StringValue(x.toString());
    }
    static int i(Value v) { return ((IntValue) v).val; }
    static Value n(int x) { return IntValue.gen(x); }

    public static synchronized Value BAdd(Value a, Value c) { return s(b(a).add(b(c))); }
    public static synchronized Value BSub(Value a, Value c) { return s(b(a).subtract(b(c))); }
    public static synchronized Value BMul(Value a, Value c) { return s(b(a).multiply(b(c))); }
    public static synchronized Value BNeg(Value a) { return s(b(a).negate()); }
    public static synchronized Value BAbs(Value a) { return s(b(a).abs()); }
    public static synchronized Value BSgn(Value a) { return n(b(a).signum()); }
    public static synchronized Value BCmp(Value a, Value c) { return n(b(a).compareTo(b(c))); }
    static BigInteger fdiv(BigInteger x, BigInteger y) {
        BigInteger[] qr = x.divideAndRemainder(y);
        return (qr[1].signum() != 0 && (qr[1].signum() < 0) != (y.signum() < 0)) ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public static synchronized Value BFDiv(Value a, Value c) { return s(fdiv(b(a), b(c))); }
    public static synchronized Value BGcd(Value a, Value c) { return s(b(a).gcd(b(c))); }
    public static synchronized Value BPow(Value a, Value e) { return s(b(a).pow(i(e))); }
    public static synchronized Value BShift(Value a, Value k) { return s(b(a).shiftLeft(i(k))); }
    public static synchronized Value BBits(Value a) { return n(b(a).abs().bitLength()); }
    public static synchronized Value FromInt(Value a) { return s(BigInteger.valueOf(i(a))); }
    public static synchronized Value ToInt(Value a) { return n(b(a).intValueExact()); }

    static BigInteger[] vec(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger[] r = new BigInteger[t.elems.length];
        for (int j = 0; j < r.length; j++) r[j] = b(t.elems[j]);
        return r;
    }
    static Value tup(BigInteger[] a) {
        Value[] v = new Value[a.length];
        for (int j = 0; j < a.length; j++) v[j] = s(a[j]);
        return new TupleValue(v);
    }
    // sum_j p[j] * r^j * 2^(k*(d-j)), i.e. 2^(k*d) * p(r/2^k), d = deg p
    static BigInteger evalScaled(BigInteger[] p, BigInteger r, int k) {
        BigInteger acc = BigInteger.ZERO;
        int d = p.length - 1;
        for (int j = d; j >= 0; j--) acc = acc.multiply(r).add(p[j].shiftLeft(k * (d - j)));
        return acc;
    }
    public static synchronized Value PolyAtDyadic(Value p, Value r, Value k) { return s(evalScaled(vec(p), b(r), i(k))); }

    private static final HashMap<String, Object[]> roots = new HashMap<>();
    // floor(2^k * alpha) for the unique root alpha of p in the open interval (lo, hi) * 2^-s
    public static synchronized Value RootFloor(Value p, Value lo, Value hi, Value sc, Value kk) {
        int k = i(kk);
        String key = p.toString() + "|" + lo + "|" + hi + "|" + sc;
        Object[] e = roots.get(key);
        BigInteger[] pol = vec(p);
        if (e == null) {
            BigInteger l = b(lo), h = b(hi);
            int s = i(sc);
            int sl = evalScaled(pol, l, s).signum();
            // shrink to an interval [l, l+1] * 2^-s by bisection
            while (h.subtract(l).bitLength() > 1 || h.subtract(l).intValue() != 1) {
                if (h.subtract(l).equals(BigInteger.ONE)) break;
                BigInteger m = l.add(h).shiftRight(1);
                if (evalScaled(pol, m, s).signum() == sl) l = m; else h = m;
            }
            e = new Object[] { l, s, sl };
            if (roots.size() > 20000) roots.clear();
            roots.put(key, e);
        }
        BigInteger l = (BigInteger) e[0];
        int s = (Integer) e[1], sl = (Integer) e[2];
        if (s < k) {
            int target = Math.max(k, s + 32);
            while (s < target) {
                if (s >= 64 && target - s > 16) {
                    int s2 = Math.min(target, 2 * s - 32);
                    BigInteger n = newton(pol, l, s, sl, s2);
                    if (n != null) { l = n; s = s2; continue; }
                }
                for (int j = 0; j < 16 && s < target; j++) {
                    BigInteger m = l.shiftLeft(1).add(BigInteger.ONE);
                    s++;
                    l = evalScaled(pol, m, s).signum() == sl ? m : m.subtract(BigInteger.ONE);
                }
            }
            e[0] = l; e[1] = s;
        }
        return s(l.shiftRight(s - k));
    }
    // a Newton step from the middle of [l, l+1] * 2^-s; the result is only
    // used when the signs show that it encloses the root, null otherwise
    static BigInteger newton(BigInteger[] p, BigInteger l, int s, int sl, int s2) {
        int t = s + 1;
        if (p.length < 3 || s2 <= t) return null;
        BigInteger x = l.shiftLeft(1).add(BigInteger.ONE);
        BigInteger[] q = new BigInteger[p.length - 1];
        for (int j = 1; j < p.length; j++) q[j - 1] = p[j].multiply(BigInteger.valueOf(j));
        BigInteger f = evalScaled(p, x, t), g = evalScaled(q, x, t);
        if (g.signum() == 0) return null;
        BigInteger m = x.shiftLeft(s2 - t).subtract(f.shiftLeft(s2 - t).divide(g));
        BigInteger lo = l.shiftLeft(s2 - s), hi = l.add(BigInteger.ONE).shiftLeft(s2 - s);
        for (int j = -1; j <= 1; j++) {
            BigInteger c = m.add(BigInteger.valueOf(j)), d = c.add(BigInteger.ONE);
            if (c.compareTo(lo) >= 0 && d.compareTo(hi) <= 0 && evalScaled(p, c, s2).signum() == sl && evalScaled(p, d, s2).signum() != sl) return c;
        }
        return null;
    }
    // integer interval Horner: bounds of 2^(k*d) * p(x) for x in [r, r+1] * 2^-k
    public static synchronized Value PolyRange(Value p, Value rr, Value kk) {
        BigInteger[] c = vec(p);
        BigInteger r = b(rr), r1 = r.add(BigInteger.ONE);
        int k = i(kk), d = c.length - 1;
        BigInteger lo = BigInteger.ZERO, hi = BigInteger.ZERO;
        for (int j = d; j >= 0; j--) {
            BigInteger a = lo.multiply(r), bb = lo.multiply(r1), cc = hi.multiply(r), dd = hi.multiply(r1);
            BigInteger t = c[j].shiftLeft(k * (d - j));
            lo = a.min(bb).min(cc.min(dd)).add(t);
            hi = a.max(bb).max(cc.max(dd)).add(t);
        }
        return new TupleValue(new Value[] { s(lo), s(hi) });
    }
    public static synchronized Value PolyMulZ(Value p, Value q) {
        BigInteger[] a = vec(p), c = vec(q);
        if (a.length == 0 || c.length == 0) return new TupleValue(new Value[0]);
        BigInteger[] r = new BigInteger[a.length + c.length - 1];
        java.util.Arrays.fill(r, BigInteger.ZERO);
        for (int x = 0; x < a.length; x++) for (int y = 0; y < c.length; y++) r[x + y] = r[x + y].add(a[x].multiply(c[y]));
        return tup(r);
    }

    static BigInteger[] trim(BigInteger[] a) {
        int l = a.length;
        while (l > 0 && a[l - 1].signum() == 0) l--;
        return l == a.length ? a : java.util.Arrays.copyOf(a, l);
    }
    public static synchronized Value PolyTrim(Value p) { return tup(trim(vec(p))); }
    // a*p + c*q without leading zeros
    public static synchronized Value PolyLin(Value p, Value a, Value q, Value c) {
        BigInteger[] x = vec(p), y = vec(q);
        BigInteger u = b(a), v = b(c);
        BigInteger[] r = new BigInteger[Math.max(x.length, y.length)];
        for (int j = 0; j < r.length; j++) {
            BigInteger t = BigInteger.ZERO;
            if (j < x.length) t = t.add(x[j].multiply(u));
            if (j < y.length) t = t.add(y[j].multiply(v));
            r[j] = t;
        }
        return tup(trim(r));
    }
    // <<rem, m>> with m * p = rem mod q, deg rem < deg q, m a power of lc(q)
    public static synchronized Value PolyPRem(Value p, Value q) {
        BigInteger[] x = trim(vec(p)).clone(), y = vec(q);
        BigInteger lc = y[y.length - 1], m = BigInteger.ONE;
        while (x.length >= y.length) {
            BigInteger t = x[x.length - 1];
            int sh = x.length - y.length;
            for (int j = 0; j < x.length; j++) x[j] = x[j].multiply(lc);
            for (int j = 0; j < y.length; j++) x[sh + j] = x[sh + j].subtract(t.multiply(y[j]));
            m = m.multiply(lc);
            x = trim(x);
        }
        return new TupleValue(new Value[] { tup(x), s(m) });
    }
    // gcd of the coefficients
    public static synchronized Value PolyContent(Value p) {
        BigInteger g = BigInteger.ZERO;
        for (BigInteger c : vec(p)) g = g.gcd(c);
        return s(g);
    }
    // p / c for an exact divisor c
    public static synchronized Value PolyDivZ(Value p, Value c) {
        BigInteger[] x = vec(p);
        BigInteger d = b(c);
        for (int j = 0; j < x.length; j++) x[j] = x[j].divide(d);
        return tup(x);
    }
    // d^deg * p(n/d)
    public static synchronized Value PolyAtRat(Value p, Value n, Value d) {
        BigInteger[] c = vec(p);
        BigInteger acc = BigInteger.ZERO, x = b(n), y = b(d), yp = BigInteger.ONE;
        for (int j = c.length - 1; j >= 0; j--) { acc = acc.multiply(x).add(c[j].multiply(yp)); yp = yp.multiply(y); }
        return s(acc);
    }
}
