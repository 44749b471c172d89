------------------------------ MODULE PolyUtil ------------------------------
(* The utilities for integer and rational polynomials: counting, bounding,   *)
(* isolating and refining real roots; evaluation. No state: every call is    *)
(* judged by its arguments and its result.                                   *)
EXTENDS Text

PolyOps == {"p_sturm", "p_vca01", "p_n01", "p_nvca", "p_nub", "p_has", "p_ub", "p_desc", "p_iso", "p_sqf",
            "p_abs", "p_at1", "p_scale", "p_uniq", "p_newton", "p_bisect", "p_steps", "p_bisarf", "p_eval", "p_evalf",
            "p_cond", "p_str", "prand"}
IsPolyOp(op) == op \in PolyOps

Q0 == <<"0", "1">>
Q1 == <<"1", "1">>
\* the integer polynomial with coefficients v = << <<n, 1>>, ... >>
IntPoly(v) == PolyTrim([i \in 1..Len(v) |-> v[i][1]])
\* clear denominators: an element [n, d]
RECURSIVE LcmDen(_, _)
LcmDen(v, i) == IF i > Len(v) THEN "1"
                ELSE LET l == LcmDen(v, i + 1) IN BFDiv(l ** v[i][2], BGcd(l, v[i][2]))
RatPoly(v) == LET l == LcmDen(v, 1) IN [n |-> PolyTrim([i \in 1..Len(v) |-> v[i][1] ** BFDiv(l, v[i][2])]), d |-> l]

\* p at a rational point
PolyAtQ(p, x) == IF p = <<>> THEN Q0 ELSE << PolyAtRat(p, x[1], x[2]), BPow(x[2], Len(p) - 1) >>

\* all real roots of a squarefree polynomial that lie in [0, 1[, in R
Count01(p)  == RootsCO(SturmSeq(p), Q0, Q1)
CountAll(p) == RootsAll(SturmSeq(p))

\* polynomial composed with x -> (a + b x), scaled by q^deg for the common denominator q
RECURSIVE CompH(_, _, _, _, _, _)
CompH(p, a, b, q, j, acc) == \* Horner: acc <- acc * (a + b x) + p[j] q^(n-j)
    IF j = 0 THEN acc
    ELSE CompH(p, a, b, q, j - 1, PolyLin(PolyMulZ(acc, <<a, b>>), "1", <<p[j] ** BPow(q, Len(p) - j)>>, "1"))
Compose(p, a, b, q) == CompH(p, a, b, q, Len(p), <<>>)

Reverse(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
\* Descartes: sign variations of (1+x)^n p(1/(1+x))
Descartes01(p) == LET q == Compose(PolyTrim(Reverse(p)), "1", "1", "1")
                  IN Variations([i \in 1..Len(q) |-> BSgn(q[i])])

\* open interval ]c 2^k, (c+1) 2^k[
IvLo(x) == Dyadic(x[1], x[2])
IvHi(x) == Dyadic(x[1] ++ "1", x[2])
IsolateOK(p, ex, iv, total) ==
    LET S == SturmSeq(p)
    IN /\ Len(ex) + Len(iv) = total
       /\ \A i \in 1..Len(ex) : IsRoot(p, ex[i]) /\ BSgn(ex[i][2]) > 0
       /\ \A i \in 1..(Len(ex) - 1) : QCmp(ex[i], ex[i + 1]) < 0
       /\ \A i \in 1..Len(iv) : RootsOO(S, IvLo(iv[i]), IvHi(iv[i])) = 1
       /\ \A i \in 1..(Len(iv) - 1) : QCmp(IvHi(iv[i]), IvLo(iv[i + 1])) <= 0
       /\ \A i \in 1..Len(iv), j \in 1..Len(ex) : QCmp(ex[j], IvLo(iv[i])) <= 0 \/ QCmp(IvHi(iv[i]), ex[j]) <= 0

\* q is the squarefree part of p (up to a constant factor)
SquareFreePartOK(p, q) ==
    IF p = <<>> THEN q = <<>>
    ELSE IF Len(p) = 1 THEN q = <<"1">>
    ELSE LET S == SturmSeq(p)
         IN /\ Len(q) = Len(p) - Len(S[Len(S)]) + 1
            /\ BSgn(q[Len(q)]) > 0
            /\ PolyPRem(p, q)[1] = <<>>
            /\ SquareFree(q)

\* b has exactly one root of p and the result of a step keeps it
OneRoot(p, b) == b # <<>> /\ RootsInBall(SturmSeq(p), b) = 1
HasRoot(p, b) == b # <<>> /\ RootsInBall(SturmSeq(p), b) >= 1
StepOK(p, a, r) == \* r: [ok, b, in]
    /\ r.in = a
    /\ (r.ok = 1 /\ OneRoot(p, a)) =>
                   /\ r.b # <<>> /\ BallInside(r.b, a) /\ r.b # a
                   /\ OneRoot(p, r.b)
\* the enclosure r of p(x)/d for x in the ball a, tested at five points
Mid(x, y) == QMul(QAdd(x, y), <<"1", "2">>)
Points(a) == LET l == BallLo(a) h == BallHi(a) m == Mid(l, h) IN << l, m, h, Mid(l, m), Mid(m, h) >>
EvalOK(p, a, r) ==
    \/ r = <<>>
    \/ \A i \in 1..5 : LET y == PolyAtQ(p.n, Points(a)[i]) IN BallHasQ(r, << y[1], y[2] ** p.d >>)

\* sum |p_i| x^i for a rational x >= 0
AbsPoly(p) == [i \in 1..Len(p) |-> BAbs(p[i])]
CondOK(s, c) == \* 2^(c-2) <= s < 2^(c+1)
    /\ QCmp(s, Dyadic("1", c + 1)) < 0
    /\ QCmp(Dyadic("1", c - 2), s) <= 0

CondElemOK(f, x, ret) ==
    IF EIsRat(x) THEN ret = <<1, 0>>
    ELSE LET y == ENorm(x)
             pos == ESgn(f, EGen(f.pol)) > 0
             s == [n |-> [i \in 1..Len(y.n) |-> IF pos \/ i % 2 = 1 THEN BAbs(y.n[i]) ELSE BNeg(BAbs(y.n[i]))], d |-> "1"]
         IN ret[1] = 0 /\ ECmpQ(f, s, Dyadic("1", ret[2] + 1)) < 0

------------------------------------------------------------------------------
PolyOpOK(e, c14, c15, c12, c07) ==
    LET A == e.a  op == e.op  r == e.ret
        p == IF op = "prand" THEN <<>> ELSE IntPoly(A[1].v)
    IN CASE op \in {"p_sturm", "p_vca01", "p_n01"} -> c14 => r.n = Count01(p) /\ r.post = p
         [] op = "prand"   -> c14 => (Len(r.p) > 1 => r.n = 1) /\ Len(r.p) \in 1..A[2].i
         [] op = "p_nvca"  -> c14 => r.n = CountAll(p) /\ r.post = p
         [] op = "p_nub"   -> c14 => r.n >= CountAll(p) /\ r.post = p
         [] op = "p_has"   -> c14 => (r.n # 0) = (CountAll(p) > 0) /\ r.post = p
         [] op = "p_ub"    -> c14 => \A j \in 1..3 :
                                 IF r[j] = <<>> THEN RootsAbove(SturmSeq(p), Q0) = 0
                                 ELSE RootsAbove(SturmSeq(p), Dyadic("1", r[j][1])) = 0 /\ ~IsRoot(p, Dyadic("1", r[j][1]))
         [] op = "p_desc"  -> c14 => LET d == Descartes01(p) IN r = IF d > A[2].i THEN -1 ELSE d
         [] op = "p_iso"   -> c14 => /\ r.post = p
                                     /\ IsolateOK(p, r.ex, r.iv, IF Len(A) > 1 THEN Count01(p) ELSE CountAll(p))
                                     /\ Len(A) > 1 => /\ \A j \in 1..Len(r.iv) : QCmp(Q0, IvLo(r.iv[j])) <= 0 /\ QCmp(IvHi(r.iv[j]), Q1) <= 0
                                                      /\ \A j \in 1..Len(r.ex) : QCmp(Q0, r.ex[j]) <= 0 /\ QCmp(r.ex[j], Q1) < 0
         [] op = "p_sqf"   -> c14 => r[1] = r[2] /\ SquareFreePartOK(p, r[1])
         [] op = "p_abs"   -> c14 => r = << AbsPoly(p), AbsPoly(p) >>
         [] op = "p_at1"   -> c14 => BCmp(r, PolyAtRat(p, "1", "1")) = 0
         [] op = "p_scale" -> c14 => LET q == A[2].q[2] ** A[3].q[2]
                                         a == A[2].q[1] ** A[3].q[2]
                                         b == (A[3].q[1] ** A[2].q[2]) -- a
                                         c == Compose(p, a, b, q)
                                     IN IF Len(p) <= 1 THEN r = p
                                        ELSE /\ Len(r) = Len(c) /\ BIsOne(PolyContent(r))
                                             /\ PolyLin(r, c[Len(c)], c, BNeg(r[Len(r)])) = <<>>
         [] op = "p_uniq"  -> (c07 \/ c14) => LET n == RatPoly(A[1].v).n  b == A[2].b
                                  IN IF Len(n) < 2 THEN r = 0
                                     ELSE IF Len(n) > 2 /\ (IsRoot(n, BallLo(b)) \/ IsRoot(n, BallHi(b)))
                                          THEN r # 0 => OneRoot(n, b)
                                          ELSE (r # 0) = OneRoot(n, b)
         [] op = "p_newton" -> c15 => StepOK(p, A[2].b, r)
         [] op = "p_bisect" -> c15 => StepOK(p, A[2].b, r)
         \* a sequence of steps from the ball A[2], each on the result of the one before, up to the first without progress
         [] op = "p_steps" -> c15 => \A j \in 1..Len(r) :
                                      /\ r[j].same = 1
                                      /\ StepOK(p, IF j = 1 THEN A[2].b ELSE r[j - 1].b, r[j])
         [] op = "p_bisarf" -> (c15 /\ OneRoot(p, A[2].b)) =>
                                      /\ r # <<>>
                                      /\ LET l == Dyadic(r[1], r[2])  h == Dyadic(r[3], r[4])
                                         IN /\ QCmp(BallLo(A[2].b), l) <= 0 /\ QCmp(l, h) <= 0 /\ QCmp(h, BallHi(A[2].b)) <= 0
                                            /\ RootsCC(SturmSeq(p), l, h) = 1
         [] op = "p_eval"   -> c15 => \A j \in 1..Len(r) : EvalOK(RatPoly(A[1].v), A[2].b, r[j])
         [] op = "p_evalf"  -> c15 => LET q == RatPoly(A[1].v)  y == PolyAtQ(q.n, Dyadic(A[2].b[1], A[2].b[2]))
                                          z == << y[1], y[2] ** q.d >>
                                      IN A[3].i >= 4000 => \A j \in 1..Len(r) : r[j] # <<>> /\
                                            LET w == Dyadic(r[j][1], r[j][2])
                                            IN IF BIsOne(q.d) THEN QCmp(w, z) = 0
                                               ELSE QCmp(QMul(QAbs(QSub(w, z)), << BShift("1", 3900), "1" >>), QAbs(z)) <= 0
         [] op = "p_cond"   -> c15 => LET h == QAbs(BallHi(A[2].b))  l == QAbs(BallLo(A[2].b))
                                          x == IF QCmp(h, l) > 0 THEN h ELSE l
                                      IN r[1] = 0 /\ CondOK(PolyAtQ(AbsPoly(p), x), r[2])
         [] op = "p_str"    -> c12 => LET q == ParsePoly(A[2].c, A[3].c)
                                      IN /\ (r.e = 0) = q.ok
                                         /\ q.ok => EEq([n |-> r.n, d |-> r.d], [n |-> q.n, d |-> q.d]) /\ ECanonical([n |-> r.n, d |-> r.d])
                                         /\ (r.ez = 0) = (q.ok /\ BIsOne(q.d))
                                         /\ r.ez = 0 => r.z = q.n
=============================================================================
