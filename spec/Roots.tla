------------------------------- MODULE Roots -------------------------------
(* Real roots of integer polynomials: Sturm's theorem. Rational points are  *)
(* pairs <<n, d>>, d > 0; dyadic points <<m, e>> stand for m * 2^e.          *)
EXTENDS BigInt

Deg(p)   == Len(p) - 1
Deriv(p) == IF Len(p) <= 1 THEN <<>> ELSE [i \in 1..(Len(p) - 1) |-> FromInt(i) ** p[i + 1]]
PolyNeg(p) == [i \in 1..Len(p) |-> BNeg(p[i])]
Primitive(p) == IF p = <<>> THEN p ELSE PolyDivZ(p, PolyContent(p))

\* Sturm sequence of p (each remainder scaled by a positive number)
RECURSIVE SturmH(_, _, _)
SturmH(acc, p, q) ==
    IF q = <<>> THEN acc
    ELSE LET r == PolyPRem(p, q)
             s == Primitive(IF BSgn(r[2]) > 0 THEN PolyNeg(r[1]) ELSE r[1])
         IN SturmH(Append(acc, q), q, s)
SturmSeq(p) == SturmH(<<p>>, p, Deriv(p))

\* the last term of the Sturm sequence is gcd(p, p')
SquareFree(p) == p # <<>> /\ LET s == SturmSeq(p) IN Len(s[Len(s)]) = 1

RECURSIVE VarH(_, _, _)
VarH(sg, i, last) == IF i > Len(sg) THEN 0
                     ELSE IF sg[i] = 0 THEN VarH(sg, i + 1, last)
                     ELSE (IF last # 0 /\ sg[i] # last THEN 1 ELSE 0) + VarH(sg, i + 1, sg[i])
Variations(sg) == VarH(sg, 1, 0)

SgnAt(p, x)   == IF p = <<>> THEN 0 ELSE BSgn(PolyAtRat(p, x[1], x[2]))
VarAt(S, x)   == Variations([i \in 1..Len(S) |-> SgnAt(S[i], x)])
VarMInf(S)    == Variations([i \in 1..Len(S) |-> IF Len(S[i]) % 2 = 1 THEN BSgn(S[i][Len(S[i])]) ELSE -BSgn(S[i][Len(S[i])])])
VarPInf(S)    == Variations([i \in 1..Len(S) |-> BSgn(S[i][Len(S[i])])])

\* distinct roots of p: in ]a, b], in all of R, in ]a, oo[
\* (S the Sturm sequence; Sturm's theorem counts distinct roots when p(a), p(b) # 0,
\*  for a squarefree p also when an end is a root: ]a, b])
RootsOC(S, a, b) == VarAt(S, a) - VarAt(S, b)
RootsAll(S)      == VarMInf(S) - VarPInf(S)
RootsAbove(S, a) == VarAt(S, a) - VarPInf(S)
\* closed, half-open and open intervals (p squarefree)
IsRoot(p, x)     == SgnAt(p, x) = 0
One(b)           == IF b THEN 1 ELSE 0
RootsCC(S, a, b) == RootsOC(S, a, b) + One(IsRoot(S[1], a))
RootsCO(S, a, b) == RootsCC(S, a, b) - One(IsRoot(S[1], b))
RootsOO(S, a, b) == RootsOC(S, a, b) - One(IsRoot(S[1], b))

\* m * 2^e as a rational
Dyadic(m, e) == IF e >= 0 THEN << BShift(m, e), "1" >> ELSE << m, BShift("1", -e) >>
QCmp(x, y) == BCmp(x[1] ** y[2], y[1] ** x[2])
QAdd(x, y) == << (x[1] ** y[2]) ++ (y[1] ** x[2]), x[2] ** y[2] >>
QSub(x, y) == << (x[1] ** y[2]) -- (y[1] ** x[2]), x[2] ** y[2] >>
QMul(x, y) == << x[1] ** y[1], x[2] ** y[2] >>
QNeg(x)    == << BNeg(x[1]), x[2] >>
QSgn(x)    == BSgn(x[1])
QAbs(x)    == << BAbs(x[1]), x[2] >>
QInt(n)    == << n, "1" >>
QFloor(x)  == BFDiv(x[1], x[2])
\* -(x) for d of any sign
QMake(n, d) == IF BSgn(d) < 0 THEN << BNeg(n), BNeg(d) >> ELSE << n, d >>
QCanon(x) == LET g == BGcd(x[1], x[2]) IN << BFDiv(x[1], g), BFDiv(x[2], g) >>

(* A ball is <<m, e, r, f>>, i.e. [m*2^e - r*2^f, m*2^e + r*2^f]; <<>> is R. *)
BallLo(b) == QSub(Dyadic(b[1], b[2]), Dyadic(b[3], b[4]))
BallHi(b) == QAdd(Dyadic(b[1], b[2]), Dyadic(b[3], b[4]))
BallHasQ(b, x) == b = <<>> \/ (QCmp(BallLo(b), x) <= 0 /\ QCmp(x, BallHi(b)) <= 0)
BallInside(a, b) == \* a contained in b
    \/ b = <<>>
    \/ a # <<>> /\ QCmp(BallLo(b), BallLo(a)) <= 0 /\ QCmp(BallHi(a), BallHi(b)) <= 0
RootsInBall(S, b) == IF b = <<>> THEN RootsAll(S) ELSE RootsCC(S, BallLo(b), BallHi(b))
=============================================================================
