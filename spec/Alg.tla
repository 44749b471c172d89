-------------------------------- MODULE Alg --------------------------------
(* Exact arithmetic in real embedded number fields.                          *)
(*                                                                           *)
(* A field is a record [pol, lo, hi, sc]: an irreducible integer polynomial  *)
(* and (unless it is linear) an interval ]lo, hi[ * 2^-sc with exactly one   *)
(* of its real roots, alpha. An element is a record [n, d]: the number       *)
(* n(alpha) / d, with a polynomial n of degree < deg pol and d > 0.          *)
EXTENDS Roots

EZero        == [n |-> <<>>, d |-> "1"]
EOfQ(x)      == IF BIsZero(x[1]) THEN EZero ELSE [n |-> <<x[1]>>, d |-> x[2]]
EIsZero(x)   == x.n = <<>>
EIsRat(x)    == Len(x.n) <= 1
EQ(x)        == IF x.n = <<>> THEN <<"0", "1">> ELSE << x.n[1], x.d >>   \* of a rational element
EIsInt(x)    == EIsRat(x) /\ (EIsZero(x) \/ BIsZero(x.n[1] -- (BFDiv(x.n[1], x.d) ** x.d)))
EEq(x, y)    == PolyLin(x.n, y.d, y.n, BNeg(x.d)) = <<>>
\* the reduced representation
ENorm(x)     == IF x.n = <<>> THEN EZero
                ELSE LET g == BGcd(PolyContent(x.n), x.d)
                     IN [n |-> PolyDivZ(x.n, g), d |-> BFDiv(x.d, g)]
ECanonical(x) == /\ BSgn(x.d) > 0
                 /\ IF x.n = <<>> THEN BIsOne(x.d) ELSE BIsOne(BGcd(PolyContent(x.n), x.d))
ENeg(x)      == [n |-> PolyNeg(x.n), d |-> x.d]
EAdd(x, y)   == [n |-> PolyLin(x.n, y.d, y.n, x.d), d |-> x.d ** y.d]
ESub(x, y)   == EAdd(x, ENeg(y))
\* p(alpha)/d, reduced modulo the defining polynomial
EReduce(P, p, d) == LET r == PolyPRem(p, P)
                    IN IF BSgn(r[2]) > 0 THEN [n |-> r[1], d |-> r[2] ** d]
                                         ELSE [n |-> PolyNeg(r[1]), d |-> BNeg(r[2]) ** d]
EMul(P, x, y) == EReduce(P, PolyMulZ(x.n, y.n), x.d ** y.d)
EGen(P)       == EReduce(P, <<"0", "1">>, "1")
\* r = x / y for y # 0
EIsQuot(P, r, x, y) == EEq(EMul(P, r, y), x)
RECURSIVE EPow(_, _, _)
EPow(P, x, k) == IF k = 0 THEN EOfQ(<<"1", "1">>)
                 ELSE IF k % 2 = 0 THEN LET h == EPow(P, x, k \div 2) IN ENorm(EMul(P, h, h))
                 ELSE ENorm(EMul(P, x, EPow(P, x, k - 1)))

------------------------------------------------------------------------------
(* The embedding.                                                            *)
\* floor(2^k * alpha)
AlphaFloor(f, k) == IF Len(f.pol) = 2
                    THEN LET q == QMake(BNeg(f.pol[1]), f.pol[2]) IN BFDiv(BShift(q[1], k), q[2])
                    ELSE RootFloor(f.pol, f.lo, f.hi, f.sc, k)

\* bounds of 2^(k*deg n) * n(alpha)
EBounds(f, n, k) == PolyRange(n, AlphaFloor(f, k), k)

MaxBits == 200000   \* beyond any separation bound of the values in use
RECURSIVE NSgn(_, _, _)
NSgn(f, n, k) == LET b == EBounds(f, n, k)
                 IN IF BSgn(b[1]) > 0 THEN 1
                    ELSE IF BSgn(b[2]) < 0 THEN -1
                    ELSE IF k > MaxBits THEN Assert(FALSE, "sign not decided") ELSE NSgn(f, n, 2 * k)
\* sign of the real number x
ESgn(f, x) == IF x.n = <<>> THEN 0 ELSE IF Len(x.n) = 1 THEN BSgn(x.n[1]) ELSE NSgn(f, x.n, 64)
ECmp(f, x, y) == ESgn(f, ESub(x, y))
ECmpQ(f, x, q) == ESgn(f, [n |-> PolyLin(x.n, q[2], <<q[1]>>, BNeg(x.d)), d |-> "1"])

\* floor(2^s * x)
RECURSIVE NFloor(_, _, _, _, _)
NFloor(f, n, d, s, k) ==
    LET b  == EBounds(f, n, k)
        t  == s - k * (Len(n) - 1)
        u  == IF t >= 0 THEN BFDiv(BShift(b[1], t), d) ELSE BFDiv(b[1], BShift(d, -t))
        v  == IF t >= 0 THEN BFDiv(BShift(b[2], t), d) ELSE BFDiv(b[2], BShift(d, -t))
    IN IF BCmp(u, v) = 0 THEN u
       ELSE IF k > MaxBits THEN Assert(FALSE, "floor not decided") ELSE NFloor(f, n, d, s, 2 * k)
EFloor2(f, x, s) ==
    IF x.n = <<>> THEN "0"
    ELSE IF Len(x.n) = 1 THEN (IF s >= 0 THEN BFDiv(BShift(x.n[1], s), x.d) ELSE BFDiv(x.n[1], BShift(x.d, -s)))
    ELSE NFloor(f, x.n, x.d, s, 64)
EFloor(f, x) == EFloor2(f, x, 0)
ECeil(f, x)  == BNeg(EFloor(f, ENeg(x)))

\* the ball b contains x
BallHas(f, b, x) ==
    \/ b = <<>>
    \/ IF EIsRat(x) THEN BallHasQ(b, EQ(x))
       ELSE /\ ECmpQ(f, x, BallLo(b)) > 0
            /\ ECmpQ(f, x, BallHi(b)) < 0

------------------------------------------------------------------------------
(* IEEE double precision. A double is <<"n", m, e>> for m * 2^e, <<"inf">>,  *)
(* <<"-inf">> or <<"nan">>; zeros are <<"n", "0", 0>> regardless of sign.    *)
\* exponent E of |x| # 0: 2^E <= |x| < 2^(E+1)
RECURSIVE Exp2Search(_, _, _, _)
Exp2Search(f, x, lo, hi) == \* 2^lo <= x < 2^hi
    IF hi = lo + 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF BSgn(EFloor2(f, x, -m)) > 0 THEN Exp2Search(f, x, m, hi) ELSE Exp2Search(f, x, lo, m)
RECURSIVE Exp2Low(_, _, _)
Exp2Low(f, x, j) == IF BSgn(EFloor2(f, x, j)) > 0 THEN BBits(EFloor2(f, x, j)) - 1 - j ELSE Exp2Low(f, x, 2 * j)
Exp2(f, x) == IF BSgn(EFloor2(f, x, 0)) > 0 THEN BBits(EFloor2(f, x, 0)) - 1 ELSE Exp2Low(f, x, 64)

EAbs(f, x) == IF ESgn(f, x) < 0 THEN ENeg(x) ELSE x
\* x # 0, in units u = 2^e of the last place at |x|
UlpExp(f, x) == LET e == Exp2(f, x) - 52 IN IF e < -1074 THEN -1074 ELSE e
\* mode: 0 down (to 0), 1 up (away from 0), 2 floor, 3 ceil, 4 nearest (even)
RoundMag(f, a, e, up, near) ==   \* a > 0; multiple of 2^e
    LET m  == EFloor2(f, a, -e)
        m2 == EFloor2(f, a, 1 - e)
        exact2 == EEq(a, [n |-> <<IF 1 - e >= 0 THEN m2 ELSE BShift(m2, e - 1)>>, d |-> IF 1 - e >= 0 THEN BShift("1", 1 - e) ELSE "1"])
        half == ~BIsZero(m2 -- BShift(m, 1))       \* fractional part >= 1/2
        exact == exact2 /\ ~half
    IN IF exact THEN m
       ELSE IF near
            THEN IF ~half THEN m
                 ELSE IF exact2 /\ BIsZero(m -- BShift(BFDiv(m, "2"), 1)) THEN m    \* tie to even
                 ELSE m ++ "1"
            ELSE IF up THEN m ++ "1" ELSE m
\* IEEE rounding; values beyond the largest double: inf in the modes that round away from zero
ToDouble(f, x, mode) ==
    IF EIsZero(x) THEN <<"n", "0", 0>>
    ELSE LET s == ESgn(f, x)
             a == IF s < 0 THEN ENeg(x) ELSE x
             e == UlpExp(f, a)
             up == mode = 1 \/ (mode = 2 /\ s < 0) \/ (mode = 3 /\ s > 0)
             m == RoundMag(f, a, e, up, mode = 4)
         IN IF BSgn(m) = 0 THEN <<"n", "0", 0>>
            ELSE IF BBits(m) + e > 1024
                 THEN IF up \/ mode = 4 THEN <<IF s > 0 THEN "inf" ELSE "-inf">>
                      ELSE <<"n", IF s < 0 THEN "-9007199254740991" ELSE "9007199254740991", 971>>
            ELSE <<"n", IF s < 0 THEN BNeg(m) ELSE m, e>>
MaxDouble == << BShift("9007199254740991", 971), "1" >>
\* the rationals
QField == [pol |-> <<"-1", "1">>, lo |-> "0", hi |-> "2", sc |-> 0]
ToDoubleQ(x, mode) == ToDouble(QField, x, mode)
\* irrational numbers beyond the largest double are infinite in every mode
ToDoubleR(f, x, mode) ==
    IF ECmpQ(f, x, MaxDouble) > 0 THEN <<"inf">>
    ELSE IF ECmpQ(f, x, QNeg(MaxDouble)) < 0 THEN <<"-inf">>
    ELSE ToDouble(f, x, mode)
DoubleIn(f, x, mode) == IF EIsRat(x) THEN ToDoubleQ(x, mode) ELSE ToDoubleR(f, x, mode)
\* equality of doubles (different splits of the same number)
DEq(x, y) == IF x[1] # "n" \/ y[1] # "n" THEN x = y
             ELSE QCmp(Dyadic(x[2], x[3]), Dyadic(y[2], y[3])) = 0
=============================================================================
