------------------------------- MODULE BigInt -------------------------------
(* Unbounded integers for TLC.                                              *)
(*                                                                          *)
(* A numeral is the decimal string of an integer ("-12"). Every operator is *)
(* defined below by its mathematical meaning; TLC evaluates the operators   *)
(* named B..., Root..., Poly... with the Java class java/BigInt.java, since *)
(* TLC integers have 32 bits. BigIntTest.tla compares the two.              *)
EXTENDS Integers, Sequences, TLC

Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0
            ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + Digit(SubSeq(s, Len(s), Len(s)))
ToInt(s) == IF SubSeq(s, 1, 1) = "-" THEN -NatOf(SubSeq(s, 2, Len(s))) ELSE NatOf(s)
FromInt(i) == ToString(i)

BAdd(a, b) == FromInt(ToInt(a) + ToInt(b))
BSub(a, b) == FromInt(ToInt(a) - ToInt(b))
BMul(a, b) == FromInt(ToInt(a) * ToInt(b))
BNeg(a)    == FromInt(-ToInt(a))
BSgn(a)    == IF ToInt(a) > 0 THEN 1 ELSE IF ToInt(a) < 0 THEN -1 ELSE 0
BAbs(a)    == IF BSgn(a) < 0 THEN BNeg(a) ELSE a
BCmp(a, b) == BSgn(BSub(a, b))
\* floor division
BFDiv(a, b) == IF ToInt(b) > 0 THEN FromInt(ToInt(a) \div ToInt(b))
                               ELSE FromInt((-ToInt(a)) \div (-ToInt(b)))
RECURSIVE BGcdNat(_, _)
BGcdNat(x, y) == IF y = 0 THEN x ELSE BGcdNat(y, x % y)
BGcd(a, b) == FromInt(BGcdNat(ToInt(BAbs(a)), ToInt(BAbs(b))))
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN "1" ELSE BMul(a, BPow(a, n - 1))
\* a * 2^k, rounded down for negative k
BShift(a, k) == IF k >= 0 THEN BMul(a, BPow("2", k)) ELSE BFDiv(a, BPow("2", -k))
\* number of bits of |a|
RECURSIVE BBits(_)
BBits(a) == IF BSgn(a) = 0 THEN 0 ELSE 1 + BBits(BFDiv(BAbs(a), "2"))

a ++ b == BAdd(a, b)
a -- b == BSub(a, b)
a ** b == BMul(a, b)
a \prec b == BCmp(a, b) < 0
a \preceq b == BCmp(a, b) <= 0
BMin(a, b) == IF a \preceq b THEN a ELSE b
BMax(a, b) == IF a \preceq b THEN b ELSE a
BIsZero(a) == BSgn(a) = 0
BIsOne(a)  == BCmp(a, "1") = 0

(* Polynomials with integer coefficients: sequences, constant term first.   *)
\* 2^(k*d) * p(r / 2^k), d = deg p
RECURSIVE PolyHorner(_, _, _, _, _)
PolyHorner(p, r, k, j, acc) ==
    IF j = 0 THEN acc
    ELSE PolyHorner(p, r, k, j - 1, BAdd(BMul(acc, r), BShift(p[j], k * (Len(p) - j))))
PolyAtDyadic(p, r, k) == PolyHorner(p, r, k, Len(p), "0")

\* bounds <<lo, hi>> of 2^(k*d) * p(x) for x in [r, r+1] * 2^-k (interval Horner)
RECURSIVE PolyRangeH(_, _, _, _, _)
PolyRangeH(p, r, k, j, acc) ==
    IF j = 0 THEN acc
    ELSE LET r1 == BAdd(r, "1")
             c1 == BMul(acc[1], r)   c2 == BMul(acc[1], r1)
             c3 == BMul(acc[2], r)   c4 == BMul(acc[2], r1)
             t  == BShift(p[j], k * (Len(p) - j))
         IN PolyRangeH(p, r, k, j - 1,
               << BAdd(BMin(BMin(c1, c2), BMin(c3, c4)), t),
                  BAdd(BMax(BMax(c1, c2), BMax(c3, c4)), t) >>)
PolyRange(p, r, k) == PolyRangeH(p, r, k, Len(p), <<"0", "0">>)

RECURSIVE PolySumH(_, _, _, _)
PolySumH(p, q, n, i) ==  \* coefficient n of p*q, summing from index i
    IF i > Len(p) THEN "0"
    ELSE BAdd(IF n - i + 2 \in 1..Len(q) THEN BMul(p[i], q[n - i + 2]) ELSE "0", PolySumH(p, q, n, i + 1))
PolyMulZ(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
                  ELSE [n \in 1..(Len(p) + Len(q) - 1) |-> PolySumH(p, q, n - 1, 1)]

RECURSIVE PolyTrim(_)
PolyTrim(p) == IF p = <<>> THEN p
               ELSE IF BSgn(p[Len(p)]) = 0 THEN PolyTrim(SubSeq(p, 1, Len(p) - 1)) ELSE p
\* a*p + b*q without leading zeros
PolyLin(p, a, q, b) ==
    LET n == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
    IN PolyTrim([i \in 1..n |-> BAdd(IF i <= Len(p) THEN BMul(a, p[i]) ELSE "0",
                                     IF i <= Len(q) THEN BMul(b, q[i]) ELSE "0")])
\* pseudo remainder: <<r, m>> with m*p = r mod q, deg r < deg q, m a power of lc(q)
RECURSIVE PolyPRemH(_, _, _)
PolyPRemH(p, q, m) ==
    IF Len(p) < Len(q) THEN << p, m >>
    ELSE LET lc == q[Len(q)]
             sh == [i \in 1..(Len(p) - Len(q)) |-> "0"] \o q
         IN PolyPRemH(PolyLin(p, lc, sh, BNeg(p[Len(p)])), q, BMul(m, lc))
PolyPRem(p, q) == PolyPRemH(PolyTrim(p), q, "1")
RECURSIVE PolyContent(_)
PolyContent(p) == IF p = <<>> THEN "0" ELSE BGcd(Head(p), PolyContent(Tail(p)))
PolyDivZ(p, c) == [i \in 1..Len(p) |-> IF BSgn(c) > 0 THEN BFDiv(p[i], c) ELSE BFDiv(BNeg(p[i]), BNeg(c))]
\* d^deg * p(n/d)
RECURSIVE PolyAtRatH(_, _, _, _, _, _)
PolyAtRatH(p, n, d, j, acc, dp) ==
    IF j = 0 THEN acc
    ELSE PolyAtRatH(p, n, d, j - 1, BAdd(BMul(acc, n), BMul(p[j], dp)), BMul(dp, d))
PolyAtRat(p, n, d) == PolyAtRatH(p, n, d, Len(p), "0", "1")

(* floor(2^k * alpha), where alpha is the only root of p in the open        *)
(* interval (lo, hi) * 2^-s and p changes its sign there: bisection.        *)
RECURSIVE RootBisect(_, _, _, _, _)
RootBisect(p, lo, hi, s, sl) ==       \* integers lo < hi with the root in (lo, hi)*2^-s
    IF BCmp(hi, BAdd(lo, "1")) = 0 THEN lo
    ELSE LET m == BShift(BAdd(lo, hi), -1)
         IN IF BSgn(PolyAtDyadic(p, m, s)) = sl THEN RootBisect(p, m, hi, s, sl)
                                                ELSE RootBisect(p, lo, m, s, sl)
RootFloor(p, lo, hi, s, k) ==
    LET t == IF k > s THEN k ELSE s
        n == RootBisect(p, BShift(lo, t - s), BShift(hi, t - s), t,
                        BSgn(PolyAtDyadic(p, lo, s)))
    IN BShift(n, k - t)
=============================================================================
