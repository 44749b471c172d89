------------------------------- MODULE EAntic -------------------------------
(* The observable behaviour of e-antic as a state machine.                   *)
(*                                                                           *)
(* State: the fields that exist (F), the element variables of the program    *)
(* (R), its field handles (K), archives it has written (S), and the hash     *)
(* values it has seen (H). One action per call of the C or C++ interface,    *)
(* described by an event e: operation e.op, arguments e.a, result e.ret,     *)
(* exception e.exc. Exact numbers are compared through their exact           *)
(* representation; stored balls are only constrained by containment.         *)
(*                                                                           *)
(* Every condition carries the properties it states (On({"C01"}) ...): TLC    *)
(* checks those of the property in Focus and follows the recorded state       *)
(* for the rest.                                                             *)
EXTENDS Alg, Text, PolyUtil, FiniteSets

CONSTANTS Focus,     \* property id, or "ALL"
          Strict     \* TRUE iff implicit arithmetic between different fields is forbidden
VARIABLES F, R, K, S, H, Q

\* C10: threads that compute with fields of their own see exactly what one thread would see
\* C18: the Python interface; operations on Python variables behave like the operations they stand for
On(P) == \/ Focus = "ALL" \/ Focus \in P
         \/ Focus = "C10" /\ P \cap {"C01", "C02", "C03", "C04", "C05", "C07", "C11", "C12", "C13", "C16", "C17"} # {}
         \/ Focus = "C18" /\ P \cap {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C11", "C12", "C13", "C16", "C17"} # {}
\* the kind of an exception; Python only has to raise one
Raises(e, t) == IF Focus = "C18" THEN e.exc # "" ELSE e.exc \in t

------------------------------------------------------------------------------
(* Fields                                                                    *)
\* integer interval ends of a ball at a common scale
BallScale(b) == LET m == IF b[2] < b[4] THEN b[2] ELSE b[4] IN IF m < 0 THEN -m ELSE 0
FieldRec(x) == \* a new field as observed: polynomial x.n / x.d, ball x.b
    LET b == x.b  s == IF b = <<>> THEN 0 ELSE BallScale(b)
        mid == IF b = <<>> THEN "0" ELSE BShift(b[1], b[2] + s)
        rad == IF b = <<>> THEN "1" ELSE BShift(b[3], b[4] + s)
    IN [id |-> x.id, pol |-> x.n, den |-> x.d, name |-> x.name, prec |-> x.prec, b |-> b,
        lo |-> mid -- rad, hi |-> mid ++ rad, sc |-> s]
Alpha(f)   == EGen(f.pol)
FDeg(f)    == Len(f.pol) - 1
\* the ball holds exactly one real root of the polynomial
Isolating(pol, b) == RootsInBall(SturmSeq(pol), b) = 1
\* f and g stand for the same subfield with the same generator
SameField(f, g) == /\ f.pol = g.pol /\ f.den = g.den /\ f.name = g.name
                   /\ BallHas(f, g.b, Alpha(f))
\* does the field g realise the request: polynomial (n, d), root in ball b, generator name?
Realises(g, n, d, name, b) ==
    /\ PolyLin(g.pol, d, n, BNeg(g.den)) = <<>>
    /\ g.name = name
    /\ BallHas(g, b, Alpha(g))

------------------------------------------------------------------------------
(* Registers: [f, n, d, b]; f = -1 moved from, f = -2 no object              *)
Obj(i)   == R[i].f >= 0
Val(x)   == [n |-> x.n, d |-> x.d]
Fi(i)    == F[R[i].f]
P(i)     == Fi(i).pol
IsReg(a) == "r" \in DOMAIN a
V(a)     == IF IsReg(a) THEN Val(R[a.r]) ELSE EOfQ(a.q)
Rational(a) == EIsRat(V(a))

(* The recorded successor state                                              *)
R1(e) == LET upd == {e.ch[j] : j \in 1..Len(e.ch)}
         IN [i \in DOMAIN R |-> IF \E u \in upd : u[1] = i THEN (CHOOSE u \in upd : u[1] = i)[2] ELSE R[i]]
K1(e) == LET upd == {e.hc[j] : j \in 1..Len(e.hc)}
         IN [i \in DOMAIN K |-> IF \E u \in upd : u[1] = i THEN (CHOOSE u \in upd : u[1] = i)[2] ELSE K[i]]
NewF(e) == {e.nf[j] : j \in 1..Len(e.nf)}
FBall(e) == {e.fb[j] : j \in 1..Len(e.fb)}
Used(r, k) == ({r[i].f : i \in DOMAIN r} \cup {k[i] : i \in DOMAIN k} \cup {Q}) \ {-1, -2}
F1(e) == LET nf == NewF(e)
             g == [x \in DOMAIN F \cup {y.id : y \in nf} |->
                      IF \E y \in nf : y.id = x THEN FieldRec(CHOOSE y \in nf : y.id = x)
                      ELSE IF \E u \in FBall(e) : u[1] = x THEN [F[x] EXCEPT !.b = (CHOOSE u \in FBall(e) : u[1] = x)[2]]
                      ELSE F[x]]
             u == Used(R1(e), K1(e))
         IN [x \in (DOMAIN g) \cap (u \cup {e.q}) |-> g[x]]

SameVal(x, y) == x.f = y.f /\ (x.f < 0 \/ EEq(x, y))

(* Conditions every step satisfies                                           *)
\* all registers outside T keep value and parent, all handles outside U stay
OpsOf == [C03 |-> {"rel", "is", "sgn", "c_sgn", "c_cmp", "c_eq", "sort"},
          C04 |-> {"floor", "ceil", "floorf", "ceilf", "c_floor", "c_ceil", "floordiv", "c_fdiv", "c_cfrac"},
          C05 |-> {"dbl", "c_getd", "c_getarb"},
          C12 |-> {"str", "strx", "c_str", "strrt", "streamrt", "read", "news", "print", "fprint", "fstr", "con"},
          C13 |-> {"save", "load", "vecrt", "aopen", "aput", "aclose", "ropen", "rget", "rclose"},
          C16 |-> {"hash", "uset", "fhash"},
          C17 |-> {"parts", "num", "tompz", "tompq", "newn", "newv", "newq", "depr"}]
Frame(e, r1, k1, T, U) ==
    /\ (On({"C01", "C09", "C11", "C06"}) \/ (Focus \in DOMAIN OpsOf /\ e.op \in OpsOf[Focus])) => \A i \in DOMAIN R \ T : SameVal(r1[i], R[i])
    /\ On({"C08", "C09"}) => \A i \in DOMAIN K \ U : k1[i] = K[i]

Enclosed(e, r1, f1) ==
    /\ On({"C02"}) => \A j \in 1..Len(e.ch) :
          LET x == e.ch[j][2] IN x.f >= 0 => BallHas(f1[x.f], x.b, Val(x))
    \* a field is only usable when its ball determines the root
    /\ \A x \in NewF(e) : x.id \in DOMAIN f1 => (x.b # <<>> /\ Isolating(x.n, x.b))
    /\ On({"C02", "C06", "C07", "C15"}) =>
          \A u \in FBall(e) : u[1] \in DOMAIN f1 => (u[2] # <<>> /\ BallHas(f1[u[1]], u[2], Alpha(f1[u[1]])) /\ Isolating(f1[u[1]].pol, u[2]))
    \* refinements do not forget what was known
    /\ On({"C06", "C15"}) => \A u \in FBall(e) : (u[1] \in DOMAIN f1 /\ u[1] \in DOMAIN F) => BallInside(u[2], F[u[1]].b)

WellFormed(e, r1, f1) ==
    On({"C01", "C17"}) => \A j \in 1..Len(e.ch) :
        LET x == e.ch[j][2] IN x.f >= 0 => (ECanonical(x) /\ Len(x.n) <= (IF FDeg(f1[x.f]) < 1 THEN 1 ELSE FDeg(f1[x.f])))

\* distinct live fields differ, and every live field is accounted for
UniqueParents(e, f1) ==
    On({"C08", "C07", "C13"}) => \A x \in NewF(e) : x.id \in DOMAIN f1 =>
        \A y \in DOMAIN f1 \ {x.id} : ~SameField(f1[x.id], f1[y])
Lifetimes(e, f1) ==
    \* an open archive may keep the fields it has seen
    On({"C09", "C08"}) => IF e.open = 0 THEN e.live = Cardinality(DOMAIN f1) ELSE e.live >= Cardinality(DOMAIN f1)

------------------------------------------------------------------------------
(* Results                                                                   *)
NoExc(e) == e.exc = ""
\* target i holds the value v in field f
Holds(r1, i, f, v) ==
    /\ r1[i].f >= 0
    /\ On({"C11", "C09", "C01", "C12", "C13", "C08"}) => r1[i].f = f
    /\ On({"C01", "C06", "C09", "C11", "C12", "C13", "C17"}) => EEq(Val(r1[i]), v)

Arith(op, pol, x, y, z) == \* z = x op y
    CASE op = "+" -> EEq(z, EAdd(x, y))
      [] op = "-" -> EEq(z, ESub(x, y))
      [] op = "*" -> EEq(z, EMul(pol, x, y))
      [] op = "/" -> EIsQuot(pol, z, x, y)
HoldsArith(r1, i, f, op, x, y) ==
    /\ r1[i].f >= 0
    /\ On({"C11", "C01"}) => r1[i].f = f
    /\ On({"C01", "C06", "C11"}) => Arith(op, F[f].pol, x, y, Val(r1[i]))

\* parent of the result of a binary operation in the C++ interface; -3: error
BinParent(op, a, b) ==
    IF ~IsReg(b) THEN R[a.r].f
    ELSE IF ~IsReg(a) THEN (IF op \in {"+", "*"} THEN R[b.r].f ELSE IF Rational(b) THEN Q ELSE R[b.r].f)
    ELSE LET fa == R[a.r].f  fb == R[b.r].f
         IN IF fa = fb THEN fa
            ELSE IF Strict /\ fa # Q /\ fb # Q THEN -3
            ELSE IF Rational(b) THEN fa
            ELSE IF Rational(a) THEN fb
            ELSE -3
BinError(a, b) == IF Strict THEN "invalid_argument" ELSE "logic_error"

Bin(e, r1, k1) ==
    LET op == e.a[1].w  i == e.a[2].r
        a == IF e.op = "inp" THEN e.a[2] ELSE e.a[3]
        b == IF e.op = "inp" THEN e.a[3] ELSE e.a[4]
        f == BinParent(op, a, b)
    IN IF f = -3 THEN /\ On({"C11"}) => Raises(e, {"logic_error", "invalid_argument"}) /\ (Strict => Raises(e, {"invalid_argument"}))
                      /\ Frame(e, r1, k1, {}, {})
       ELSE /\ NoExc(e)
            /\ HoldsArith(r1, i, f, op, V(a), V(b))
            /\ Frame(e, r1, k1, {i}, {})

CBin(e, r1, k1) == \* C interface: everything in the parent of the target
    LET op == e.a[1].w  i == e.a[2].r
    IN /\ NoExc(e)
       /\ HoldsArith(r1, i, R[i].f, op, V(e.a[3]), V(e.a[4]))
       /\ Frame(e, r1, k1, {i}, {})

Pow(e, r1, k1) ==
    LET i == e.a[1].r  j == e.a[2].r  k == e.a[3].i  f == R[j].f  x == Val(R[j])
        unit == EIsRat(x) /\ ~EIsZero(x) /\ (EEq(x, EOfQ(<<"1", "1">>)) \/ EEq(x, EOfQ(<<"-1", "1">>)))
    IN /\ NoExc(e)
       /\ r1[i].f >= 0
       /\ On({"C01", "C11"}) => r1[i].f = f
       /\ On({"C01", "C06"}) =>
            IF EIsZero(x) /\ k > 0 THEN EIsZero(Val(r1[i]))
            ELSE IF unit THEN EEq(Val(r1[i]), IF k % 2 = 0 THEN EOfQ(<<"1", "1">>) ELSE x)
            ELSE IF k >= 0 THEN EEq(Val(r1[i]), EPow(F[f].pol, x, k))
            ELSE EEq(EMul(F[f].pol, Val(r1[i]), EPow(F[f].pol, x, -k)), EOfQ(<<"1", "1">>))
       /\ Frame(e, r1, k1, {i}, {})

\* simple assignments of a value to a register
Put(e, r1, k1, i, f, v) == NoExc(e) /\ Holds(r1, i, f, v) /\ Frame(e, r1, k1, {i}, {})

QMachine(q) == EOfQ(q)
\* coefficient list of rationals as an element
RECURSIVE SumCoef(_, _)
SumCoef(v, j) == \* sum of v[i] x^(i-1), as [n, d] not reduced modulo pol
    IF j = 0 THEN EZero
    ELSE LET c == v[j]
         IN EAdd([n |-> PolyTrim([t \in 1..j |-> IF t = j THEN c[1] ELSE "0"]), d |-> c[2]], SumCoef(v, j - 1))
OfCoef(pol, v) == LET s == SumCoef(v, Len(v)) IN EReduce(pol, s.n, s.d)

------------------------------------------------------------------------------
(* Comparison                                                                *)
Comparable(a, b) == ~IsReg(a) \/ ~IsReg(b) \/ R[a.r].f = R[b.r].f \/ Rational(a) \/ Rational(b)
\* the field in which two comparable operands are compared
CmpField(a, b) == IF IsReg(a) /\ ~Rational(a) THEN Fi(a.r) ELSE IF IsReg(b) /\ ~Rational(b) THEN Fi(b.r)
                  ELSE IF IsReg(a) THEN Fi(a.r) ELSE Fi(b.r)
Cmp(a, b) == ECmp(CmpField(a, b), V(a), V(b))
RelOK(op, c) == CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0
                  [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0
EqOnly(op) == op \in {"==", "!="}
Rel(e, r1, k1) ==
    LET op == e.a[1].w  a == e.a[2]  b == e.a[3]
    IN /\ IF Strict /\ e.exc # "" /\ R[a.r].f # R[b.r].f /\ Q \notin {R[a.r].f, R[b.r].f}
          THEN On({"C11"}) => Raises(e, {"logic_error", "invalid_argument"})
          ELSE IF Comparable(a, b)
          THEN NoExc(e) /\ (On({"C03", "C06", "C11"}) => e.ret =
                 IF EqOnly(op) THEN RelOK(op, IF EEq(V(a), V(b)) THEN 0 ELSE 1) ELSE RelOK(op, Cmp(a, b)))
          ELSE On({"C11", "C03"}) => Raises(e, {"logic_error"})
       /\ Frame(e, r1, k1, {}, {})

Query(e, r1, k1, ok) == NoExc(e) /\ ok /\ Frame(e, r1, k1, {}, {})

Is(e) == LET x == Val(R[e.a[1].r])
             z == EIsZero(x)  o == EEq(x, EOfQ(<<"1", "1">>))  n == EIsInt(x)  q == EIsRat(x)
         IN e.ret = << z, o, n, q, ~z, z, o, n, q >>

------------------------------------------------------------------------------
(* Floor, ceiling, floor division, continued fractions                       *)
FloorDivOK(f, x, y, z) == \* z = floor(x / y): z*y <= x < (z+1)*y for y > 0, reversed for y < 0
    LET s == ESgn(f, y)
        zy == EMul(f.pol, EOfQ(<<z, "1">>), y)
    IN IF s > 0 THEN ECmp(f, zy, x) <= 0 /\ ECmp(f, x, EAdd(zy, y)) < 0
                ELSE ECmp(f, zy, x) >= 0 /\ ECmp(f, x, EAdd(zy, y)) > 0
\* continued fraction. The complete quotient before term j is -a/b, where a and b
\* are q*x - p for the two preceding convergents p/q; rem: the last complete quotient,
\* zero when the expansion ended
RECURSIVE CFracOK(_, _, _, _, _, _, _)
CFracOK(f, a, b, c, j, n, rem) ==
    IF j > Len(c) THEN Len(c) = n /\ EEq(EMul(f.pol, rem, b), ENeg(a))
    ELSE LET t == EAdd(EMul(f.pol, EOfQ(<<c[j], "1">>), b), a)
         IN /\ FloorDivOK(f, ENeg(a), b, c[j])
            /\ IF EIsZero(t) THEN j = Len(c) /\ EIsZero(rem)
               ELSE CFracOK(f, b, ENorm(t), c, j + 1, n, rem)

FloorDiv(e, r1, k1) ==
    LET a == e.a[1]  b == e.a[2]
    IN /\ IF Strict /\ e.exc # "" /\ R[a.r].f # R[b.r].f /\ Q \notin {R[a.r].f, R[b.r].f}
          THEN On({"C11"}) => Raises(e, {"logic_error", "invalid_argument"})
          ELSE IF Comparable(a, b)
          THEN NoExc(e) /\ (On({"C04", "C06"}) => FloorDivOK(CmpField(a, b), V(a), V(b), e.ret))
          ELSE On({"C11"}) => Raises(e, {"logic_error"})
       /\ Frame(e, r1, k1, {}, {})

------------------------------------------------------------------------------
(* Conversions                                                               *)
DblOK(f, x, mode, r) == DEq(r, DoubleIn(f, x, mode))
\* a ball with relative accuracy of prec bits: contains x and radius <= |x| * 2^-prec
ArbOK(f, x, prec, b) ==
    /\ b # <<>>
    /\ BallHas(f, b, x)
    /\ EIsZero(x) => b[3] = "0"
    /\ ~EIsZero(x) => LET r == Dyadic(b[3], b[4])
                      IN ECmpQ(f, EAbs(f, x), << BShift(r[1], prec), r[2] >>) >= 0

------------------------------------------------------------------------------
(* Components                                                                *)
PartsOK(i, r) ==
    LET x == Val(R[i])
    IN /\ Len(r.nv) = (IF FDeg(Fi(i)) < 1 THEN 1 ELSE FDeg(Fi(i)))
       /\ BSgn(r.den) > 0
       /\ EEq([n |-> PolyTrim(r.nv), d |-> r.den], x)
       /\ BIsOne(BGcd(PolyContent(r.nv), r.den))
       /\ BCmp(r.content, PolyContent(r.nv)) = 0

------------------------------------------------------------------------------
(* Hashing: equal values have equal hashes                                   *)
HashOK(i, h) == \A y \in {z \in H : z.t = "r"} :
    LET x == R[i]
        same == IF x.f = y.f THEN EEq(x, y) ELSE EIsRat(x) /\ EIsRat(y) /\ EEq(x, y)
    IN same => y.h = h
\* membership of hashed containers
UsetOK(e) ==
    LET c == CHOOSE j \in 1..Len(e.a) : "w" \in DOMAIN e.a[j]
        st == [j \in 1..(c - 1) |-> e.a[j]]
        eq(a, b) == (R[a.r].f = R[b.r].f \/ (Rational(a) /\ Rational(b))) /\ EEq(V(a), V(b))
    IN /\ \A j \in (c + 1)..Len(e.a) : e.ret.in[j - c] = (\E t \in 1..(c - 1) : eq(st[t], e.a[j]))
       /\ e.ret.size = Cardinality({t \in 1..(c - 1) : \A s \in 1..(t - 1) : ~eq(st[s], st[t])})

------------------------------------------------------------------------------
(* Field creation                                                            *)
\* denominators cleared: <<n, d>> with polynomial n/d
ClearDen(v) == LET s == ENorm(SumCoef(v, Len(v))) IN s
DetermineRoot(v, b) == b # <<>> /\ Isolating(ClearDen(v).n, b)
MkTarget(e) == e.a[1].k
BadBall(b) == Len(b) = 1      \* the text of the embedding is not a ball
\* the polynomial of a request, given by coefficients or as text: [ok, n, d]
PolArg(e) == IF "v" \in DOMAIN e.a[2] THEN LET c == ClearDen(e.a[2].v) IN [ok |-> TRUE, n |-> c.n, d |-> c.d]
             ELSE ParsePoly(e.a[2].c, e.a[3].c)
Mk(e, r1, k1, f1) == \* make from polynomial, name and the ball that the text denotes
    LET c == PolArg(e)  name == e.a[3].s
        ok == ~BadBall(e.ball) /\ ValidName(e.a[3].c) /\ c.ok /\ Len(c.n) > 1 /\ e.ball # <<>> /\ Isolating(c.n, e.ball)
    IN IF ok
       THEN /\ On({"C07", "C08"}) => NoExc(e)
            /\ (NoExc(e) /\ On({"C07", "C08"})) => (k1[MkTarget(e)] \in DOMAIN f1 /\ Realises(f1[k1[MkTarget(e)]], c.n, c.d, name, e.ball))
            /\ Frame(e, r1, k1, {}, {MkTarget(e)})
       ELSE /\ On({"C07"}) => ~NoExc(e)
            /\ ~NoExc(e) => Frame(e, r1, k1, {}, {})
\* the C constructor after its check of the ball
CMk(e, r1, k1, f1) ==
    LET c == ClearDen(e.a[2].v)  b == e.a[4].b  ok == DetermineRoot(e.a[2].v, b)
    IN IF e.ret = -1
       THEN (On({"C07"}) => ~ok) /\ Frame(e, r1, k1, {}, {})
       ELSE /\ On({"C07"}) => ok
            /\ On({"C07", "C08"}) => Realises(f1[k1[MkTarget(e)]], c.n, c.d, e.a[3].s, b)
            /\ Frame(e, r1, k1, {}, {MkTarget(e)})
\* embeddings for increasing precision: the first that determines a root counts
MkFun(e, r1, k1, f1) ==
    LET c == ClearDen(e.a[2].v)  n == Len(e.ball)
        good == {j \in 1..n : ~BadBall(e.ball[j]) /\ DetermineRoot(e.a[2].v, e.ball[j])}
        bad == {j \in 1..n : BadBall(e.ball[j])}
        first == IF good = {} THEN n + 1 ELSE CHOOSE j \in good : \A m \in good : j <= m
        firstbad == IF bad = {} THEN n + 1 ELSE CHOOSE j \in bad : \A m \in bad : j <= m
    IN IF first <= n /\ first < firstbad
       THEN /\ On({"C07"}) => (NoExc(e) /\ e.ret = first /\ Realises(f1[k1[MkTarget(e)]], c.n, c.d, e.a[3].s, e.ball[first]))
            /\ Frame(e, r1, k1, {}, {MkTarget(e)})
       ELSE (On({"C07"}) => ~NoExc(e)) /\ Frame(e, r1, k1, {}, {})
\* positive n-th root of a rational: the root of d2*x^n - d1
Nth(e, r1, k1, f1) ==
    LET d == QCanon(e.a[2].q)  n == e.a[3].i
        pol == [j \in 1..(n + 1) |-> IF j = 1 THEN BNeg(d[1]) ELSE IF j = n + 1 THEN d[2] ELSE "0"]
        g == f1[k1[MkTarget(e)]]
    IN /\ NoExc(e)
       /\ On({"C07"}) => /\ \/ PolyLin(g.pol, d[2], pol, BNeg(BMul(g.den, d[2]))) = <<>>   \* some multiple of it
                            \/ PolyLin(g.pol, pol[n + 1], pol, BNeg(g.pol[Len(g.pol)])) = <<>>
                         /\ g.name = e.a[4].s
                         /\ ESgn(g, Alpha(g)) > 0
       /\ Frame(e, r1, k1, {}, {MkTarget(e)})
\* all real embeddings of a polynomial in increasing order
Embs(e, r1, k1, f1) ==
    LET n == RootsAll(SturmSeq(ClearDen(e.a[1].v).n))  pol == ClearDen(e.a[1].v).n
        ks == [j \in 1..(Len(e.a) - 4) |-> e.a[4 + j].k]
        stored == IF Len(ks) < e.a[4].i THEN Len(ks) ELSE e.a[4].i
        m == IF n < stored THEN n ELSE stored
    IN /\ NoExc(e)
       /\ On({"C07", "C14"}) =>
            /\ e.ret = n
            /\ \A j \in 1..m : LET g == f1[k1[ks[j]]]
                               IN /\ g.pol = pol /\ g.name = e.a[2].s
                                  \* g is the j-th root: j - 1 roots below its ball
                                  /\ LET st == SturmSeq(pol) IN VarMInf(st) - VarAt(st, BallLo(g.b)) = j - 1
       /\ Frame(e, r1, k1, {}, {ks[j] : j \in 1..Len(ks)})
\* a field from existing data: same polynomial and root, given name
MkFrom(e, r1, k1, f1, src, name) ==
    /\ NoExc(e)
    /\ On({"C07", "C08", "C12", "C13"}) =>
         LET g == f1[k1[MkTarget(e)]]
         IN /\ g.pol = src.pol /\ g.den = src.den /\ g.name = name /\ BallHas(src, g.b, Alpha(src))
            /\ (name = src.name /\ src.id \in DOMAIN f1) => g.id = src.id
    /\ Frame(e, r1, k1, {}, {MkTarget(e)})

------------------------------------------------------------------------------
(* Archives                                                                  *)
Item(a) == IF IsReg(a) THEN [t |-> "r", f |-> Fi(a.r), v |-> Val(R[a.r])]
                       ELSE [t |-> "k", f |-> F[K[a.k]], v |-> EZero]
Save(e, r1, k1) ==
    /\ NoExc(e)
    /\ Frame(e, r1, k1, {}, {})
Load(e, r1, k1, f1) ==
    LET it == S[e.a[1].i]  n == Len(it)
        dst == [j \in 1..n |-> e.a[2 + j]]
        fld(j) == IF IsReg(dst[j]) THEN r1[dst[j].r].f ELSE k1[dst[j].k]
        \* the last item stored into a slot counts
        final(j) == \A m \in (j + 1)..n : dst[m] # dst[j]
    IN /\ NoExc(e)
       /\ On({"C13", "C08"}) => \A j \in {m \in 1..n : final(m)} :
            /\ fld(j) \in DOMAIN f1
            /\ SameField(it[j].f, f1[fld(j)])
            /\ it[j].f.id \in (DOMAIN F \cap DOMAIN f1) => fld(j) = it[j].f.id
            /\ it[j].t = "r" => EEq(it[j].v, Val(r1[dst[j].r]))
            /\ \A m \in {q \in 1..n : final(q)} : SameField(it[m].f, it[j].f) => fld(m) = fld(j)
       /\ Frame(e, r1, k1, {dst[j].r : j \in {m \in 1..n : IsReg(dst[m])}},
                           {dst[j].k : j \in {m \in 1..n : ~IsReg(dst[m])}})

\* one item of an archive that is read step by step
Get(e, r1, k1, f1) ==
    LET it == S[-2][1]  a == e.a[1]
        fld == IF IsReg(a) THEN r1[a.r].f ELSE k1[a.k]
    IN /\ NoExc(e)
       /\ "w" \notin DOMAIN a => (On({"C13", "C08"}) =>
            /\ fld \in DOMAIN f1
            /\ SameField(it.f, f1[fld])
            /\ it.f.id \in (DOMAIN F \cap DOMAIN f1) => fld = it.f.id
            /\ it.t = "r" => EEq(it.v, Val(r1[a.r])))
       /\ Frame(e, r1, k1, IF IsReg(a) THEN {a.r} ELSE {}, IF "k" \in DOMAIN a THEN {a.k} ELSE {})
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
S1(e) == CASE e.op \in {"reset", "leak"} -> << >>
           [] e.op = "save"   -> With(S, e.a[1].i, [j \in 1..(Len(e.a) - 2) |-> Item(e.a[2 + j])])
           [] e.op = "aopen"  -> With(S, -1, [b |-> e.a[1].i, it |-> <<>>])
           [] e.op = "aput"   -> [S EXCEPT ![-1].it = Append(@, Item(e.a[1]))]
           [] e.op = "aclose" -> With(Without(S, -1), S[-1].b, S[-1].it)
           [] e.op = "ropen"  -> With(S, -2, S[e.a[1].i])
           [] e.op = "rget"   -> [S EXCEPT ![-2] = Tail(@)]
           [] e.op = "rclose" -> Without(S, -2)
           [] OTHER -> S

------------------------------------------------------------------------------
(* Values moved through containers: registers rs hold the sequence of        *)
(* [f, n, d] vs afterwards                                                   *)
Multi(e, r1, k1, rs, vs) ==
    /\ NoExc(e)
    /\ On({"C09", "C03", "C12", "C13"}) => \A j \in 1..Len(rs) : r1[rs[j]].f = vs[j].f /\ EEq(r1[rs[j]], vs[j])
    /\ Frame(e, r1, k1, {rs[j] : j \in 1..Len(rs)}, {})
RegsOf(s) == [j \in 1..Len(s) |-> s[j].r]
ColonAt(e) == CHOOSE j \in 1..Len(e.a) : "w" \in DOMAIN e.a[j] /\ e.a[j].w = ":"
\* sorted: a permutation of the values in ascending order
RECURSIVE CountVal(_, _, _)
CountVal(vs, x, j) == IF j = 0 THEN 0 ELSE (IF EEq(vs[j], x) THEN 1 ELSE 0) + CountVal(vs, x, j - 1)
SortOK(e, r1) ==
    LET rs == RegsOf(e.a)  n == Len(rs)
        o == [j \in 1..n |-> R[rs[j]]]  w == [j \in 1..n |-> r1[rs[j]]]
    IN /\ \A j \in 1..n : CountVal(o, o[j], n) = CountVal(w, o[j], n) /\ w[j].f >= 0
       /\ \A j \in 1..(n - 1) : ECmp(IF EIsRat(w[j]) THEN F[w[j + 1].f] ELSE F[w[j].f], w[j], w[j + 1]) <= 0

------------------------------------------------------------------------------
(* Python                                                                    *)
RECURSIVE SumVals(_, _)
SumVals(vs, j) == IF j = 0 THEN EZero ELSE EAdd(SumVals(vs, j - 1), Val(vs[j]))
\* the field of a realalg field: the same polynomial and, for index i >= 0, root number i
\* counted from below, for i < 0 counted from above. e.ball holds the root; roots that are
\* closer than that may not be distinguished.
RaMk(e, r1, k1, f1) ==
    LET c == ClearDen(e.a[2].v)  i == e.a[3].i  st == SturmSeq(c.n)
        want == IF i >= 0 THEN i ELSE RootsAll(st) + i
    IN IF e.exc # "" THEN ~Isolating(c.n, e.ball) /\ Frame(e, r1, k1, {}, {})
       ELSE LET g == f1[k1[MkTarget(e)]]
            IN /\ PolyLin(g.pol, c.d, c.n, BNeg(g.den)) = <<>> /\ g.name = e.a[4].s
               /\ VarMInf(st) - VarAt(st, BallLo(g.b)) = want
               /\ Frame(e, r1, k1, {}, {MkTarget(e)})

------------------------------------------------------------------------------
(* The abstraction of Lifecycle.tla: fields are told apart by the generator   *)
FieldClass(f) == IF f = Q THEN "Q" ELSE F[f].name
RegClass(i) == CASE R[i].f = -2 -> "-" [] R[i].f = -1 -> "M"
                 [] OTHER -> IF R[i].f = Q THEN "Q" ELSE F[R[i].f].name \o (IF EIsRat(R[i]) THEN "q" ELSE "i")

------------------------------------------------------------------------------
(* One step                                                                  *)
Cases(e, r1, k1, f1) ==
    LET A == e.a  op == e.op
    IN CASE op = "skip"     -> Frame(e, r1, k1, {}, {})     \* not executed: outside of the domain
         [] op = "reset"    -> \A i \in DOMAIN r1 : r1[i].f = -2
         \* the same program over and over, everything dropped in between: memory in use (measured every few
         \* passes, in the smallest unit of the allocator) does not grow by a unit with each pass
         [] op = "leak"     -> /\ \A i \in DOMAIN r1 : r1[i].f = -2
                               /\ On({"C09"}) => \E j \in 2..Len(e.ret.use) : e.ret.use[j] - e.ret.use[j - 1] < e.ret.every
         \* what Lifecycle.tla predicts: the parent of each object, and whether it is rational
         [] op = "expect"   -> Query(e, r1, k1, \A j \in {t \in 1..Len(A) : t % 2 = 1} :
                                  IF IsReg(A[j]) THEN A[j + 1].w = "M" \/ A[j + 1].w = RegClass(A[j].r)
                                  ELSE A[j + 1].w = (IF K[A[j].k] = -2 THEN "-" ELSE FieldClass(K[A[j].k])))
         [] op \in {"frand", "share"} -> NoExc(e) /\ k1[A[1].k] \in DOMAIN f1 /\ Frame(e, r1, k1, {}, {A[1].k})
         [] op = "erand"    -> NoExc(e) /\ r1[A[1].r].f = R[A[1].r].f /\ Frame(e, r1, k1, {A[1].r}, {})
         \* fields
         [] op \in {"mk", "mks"} -> Mk(e, r1, k1, f1)
         [] op \in {"c_mk", "c_mkn"} -> CMk(e, r1, k1, f1)
         [] op = "mkfun"    -> MkFun(e, r1, k1, f1)
         [] op = "nth"      -> Nth(e, r1, k1, f1)
         [] op = "embs"     -> Embs(e, r1, k1, f1)
         [] op = "mkq"      -> NoExc(e) /\ k1[A[1].k] = Q /\ Frame(e, r1, k1, {}, {A[1].k})
         [] op = "mkh"      -> NoExc(e) /\ (On({"C08", "C09"}) => k1[A[1].k] = K[A[2].k]) /\ Frame(e, r1, k1, {}, {A[1].k})
         [] op = "mkmv"     -> NoExc(e) /\ (On({"C08", "C09"}) => (k1[A[1].k] = K[A[2].k] /\ (A[1].k # A[2].k => k1[A[2].k] = -2))) /\ Frame(e, r1, k1, {}, {A[1].k, A[2].k})
         [] op = "mkp"      -> NoExc(e) /\ (On({"C08", "C09"}) => k1[A[1].k] = R[A[2].r].f) /\ Frame(e, r1, k1, {}, {A[1].k})
         [] op \in {"mkcopy", "c_copy"} -> MkFrom(e, r1, k1, f1, F[K[A[2].k]], A[3].s)
         [] op = "mkcon"    -> MkFrom(e, r1, k1, f1, F[K[A[2].k]], F[K[A[2].k]].name)
         [] op = "con"      -> Query(e, r1, k1, On({"C12", "C13"}) => LET f == F[K[A[1].k]] IN
                                  /\ ParsesTo(e.ret.pol.c, e.ret.name.c, f.pol, f.den) /\ e.ret.name.s = f.name
                                  /\ e.ret.b # <<>> /\ Isolating(f.pol, e.ret.b) /\ BallHas(f, e.ret.b, Alpha(f)))
         [] op = "dropk"    -> NoExc(e) /\ k1[A[1].k] = -2 /\ Frame(e, r1, k1, {}, {A[1].k})
         [] op = "refine"   -> Query(e, r1, k1, On({"C06", "C15"}) => LET g == f1[K[A[1].k]] IN
                                  /\ g.b # <<>> /\ BallInside(g.b, F[g.id].b)
                                  \* the accuracy asked for was reached
                                  /\ LET r == Dyadic(g.b[3], g.b[4]) m == Dyadic(g.b[1], g.b[2])
                                     IN QCmp(<< BShift(r[1], A[2].i - 1), r[2] >>, QAbs(m)) <= 0)
         [] op = "immut"    -> Query(e, r1, k1, TRUE)
         [] op = "feq"      -> Query(e, r1, k1, On({"C08", "C16"}) => LET x == K[A[1].k] y == K[A[2].k] s == x = y IN
                                  /\ e.ret[1] = s /\ e.ret[2] = ~s /\ e.ret[3] = s /\ (s => e.ret[4] /\ e.ret[5])
                                  \* the C comparison ignores the name
                                  /\ e.ret[4] = (F[x].pol = F[y].pol /\ F[x].den = F[y].den /\ BallHas(F[x], F[y].b, Alpha(F[x]))))
         [] op = "fhash"    -> Query(e, r1, k1, On({"C16"}) => \A y \in H : (y.f = K[A[1].k] /\ y.t = "k") => y.h = e.ret)
         [] op = "finfo"    -> Query(e, r1, k1, On({"C07", "C17"}) => LET f == F[K[A[1].k]] IN
                                  /\ e.ret.deg = FDeg(f) /\ e.ret.cdeg = FDeg(f) /\ e.ret.name.s = f.name
                                  /\ EIsZero(e.ret.zero) /\ EEq(e.ret.one, EOfQ(<<"1", "1">>)) /\ EEq(e.ret.gen, Alpha(f))
                                  /\ \A x \in {e.ret.zero, e.ret.one, e.ret.gen} : BallHas(f, x.b, Val(x)))
         [] op = "fstr"     -> Query(e, r1, k1, On({"C12", "C07"}) => LET f == F[K[A[1].k]] IN
                                  /\ e.ret.same /\ e.ret.err = 0 /\ ParsesTo(e.ret.pol.c, CodesOf(f.name), f.pol, f.den)
                                  /\ BallHas(f, e.ret.b, Alpha(f)))
         \* construction
         [] op \in {"new", "zero"} -> Put(e, r1, k1, A[1].r, K[A[2].k], EZero)
         [] op = "newd"     -> Put(e, r1, k1, A[1].r, Q, EZero)
         [] op = "newn"     -> Put(e, r1, k1, A[1].r, K[A[2].k], EOfQ(A[3].q))
         [] op = "newq"     -> Put(e, r1, k1, A[1].r, Q, EOfQ(A[2].q))
         [] op = "asgn"     -> Put(e, r1, k1, A[1].r, Q, EOfQ(A[2].q))
         [] op = "newv"     -> Put(e, r1, k1, A[1].r, K[A[2].k], OfCoef(F[K[A[2].k]].pol, A[4].v))
         [] op = "one"      -> Put(e, r1, k1, A[1].r, K[A[2].k], EOfQ(<<"1", "1">>))
         [] op = "gen"      -> Put(e, r1, k1, A[1].r, K[A[2].k], Alpha(F[K[A[2].k]]))
         [] op = "news"     -> LET p == ParseElem(A[3].c, CodesOf(F[K[A[2].k]].name)) IN
                               IF p.ok THEN Put(e, r1, k1, A[1].r, K[A[2].k], EReduce(F[K[A[2].k]].pol, p.n, p.d))
                               ELSE (On({"C12"}) => Raises(e, {"invalid_argument"})) /\ (On({"C12", "C09"}) => Frame(e, r1, k1, {}, {}))
         [] op = "newe"     -> LET f == K[A[2].k] x == R[A[3].r] IN
                               IF x.f = f \/ EIsRat(x) THEN Put(e, r1, k1, A[1].r, f, Val(x))
                               ELSE (On({"C11"}) => Raises(e, {"logic_error"})) /\ Frame(e, r1, k1, {}, {})
         [] op = "newc"     -> Put(e, r1, k1, A[1].r, R[A[2].r].f, Val(R[A[2].r]))
         [] op = "asg"      -> Put(e, r1, k1, A[1].r, R[A[2].r].f, Val(R[A[2].r]))
         [] op \in {"newm", "asgm"} -> NoExc(e) /\ Holds(r1, A[1].r, R[A[2].r].f, Val(R[A[2].r])) /\ Frame(e, r1, k1, {A[1].r, A[2].r}, {})
                               \* the source stays an object
                               /\ r1[A[2].r].f >= -1
         [] op \in {"swap", "stdswap"} -> NoExc(e)
                               /\ (On({"C09"}) => SameVal(r1[A[1].r], R[A[2].r]) /\ SameVal(r1[A[2].r], R[A[1].r])) /\ Frame(e, r1, k1, {A[1].r, A[2].r}, {})
         [] op = "c_swap"   -> NoExc(e) /\ (On({"C09", "C01"}) => SameVal(r1[A[1].r], R[A[2].r]) /\ SameVal(r1[A[2].r], R[A[1].r])) /\ Frame(e, r1, k1, {A[1].r, A[2].r}, {})
         [] op = "drop"     -> NoExc(e) /\ r1[A[1].r].f = -2 /\ Frame(e, r1, k1, {A[1].r}, {})
         \* arithmetic
         [] op \in {"bin", "inp"} -> Bin(e, r1, k1)
         [] op \in {"c_bin", "c_qbin"} -> CBin(e, r1, k1)
         [] op \in {"neg", "c_neg"} -> Put(e, r1, k1, A[1].r, R[A[2].r].f, ENeg(Val(R[A[2].r])))
         [] op \in {"pos", "c_set"} -> Put(e, r1, k1, A[1].r, R[A[2].r].f, Val(R[A[2].r]))
         [] op = "c_setnf"  -> Put(e, r1, k1, A[1].r, R[A[2].r].f, Val(R[A[2].r]))
         [] op = "c_inv"    -> NoExc(e) /\ HoldsArith(r1, A[1].r, R[A[2].r].f, "/", EOfQ(<<"1", "1">>), Val(R[A[2].r])) /\ Frame(e, r1, k1, {A[1].r}, {})
         [] op \in {"pow", "powf", "c_pow"} -> Pow(e, r1, k1)
         [] op = "c_zero"   -> Put(e, r1, k1, A[1].r, R[A[1].r].f, EZero)
         [] op = "c_one"    -> Put(e, r1, k1, A[1].r, R[A[1].r].f, EOfQ(<<"1", "1">>))
         [] op = "c_gen"    -> Put(e, r1, k1, A[1].r, R[A[1].r].f, Alpha(Fi(A[1].r)))
         [] op = "c_setn"   -> Put(e, r1, k1, A[1].r, R[A[1].r].f, EOfQ(A[2].q))
         [] op = "c_setpoly" -> Put(e, r1, k1, A[1].r, R[A[1].r].f, OfCoef(P(A[1].r), A[2].v))
         [] op = "c_eval"   -> Query(e, r1, k1, TRUE)
         [] op = "c_check"  -> Query(e, r1, k1, TRUE)
         \* queries
         [] op = "rel"      -> Rel(e, r1, k1)
         [] op = "is"       -> Query(e, r1, k1, On({"C03", "C06"}) => Is(e))
         [] op \in {"sgn", "c_sgn"} -> Query(e, r1, k1, On({"C03", "C06"}) => e.ret = ESgn(Fi(A[1].r), Val(R[A[1].r])))
         [] op = "c_cmp"    -> Query(e, r1, k1, On({"C03", "C06"}) => e.ret = Cmp(A[1], A[2]))
         [] op = "c_eq"     -> Query(e, r1, k1, On({"C03", "C06"}) => e.ret = EEq(V(A[1]), V(A[2])))
         [] op \in {"floor", "floorf", "c_floor"} -> Query(e, r1, k1, On({"C04", "C06"}) => BCmp(e.ret, EFloor(Fi(A[1].r), Val(R[A[1].r]))) = 0)
         [] op \in {"ceil", "ceilf", "c_ceil"} -> Query(e, r1, k1, On({"C04", "C06"}) => BCmp(e.ret, ECeil(Fi(A[1].r), Val(R[A[1].r]))) = 0)
         [] op \in {"floordiv", "c_fdiv"} -> FloorDiv(e, r1, k1)
         [] op = "c_cfrac"  -> NoExc(e) /\ (On({"C04", "C06"}) => LET f == Fi(A[1].r) x == Val(R[A[1].r]) IN
                                  IF EIsZero(x) THEN e.ret = <<>> /\ EIsZero(Val(r1[A[2].r]))
                                  ELSE CFracOK(f, x, EOfQ(<<"-1", "1">>), e.ret, 1, A[3].i, Val(r1[A[2].r])))
                               /\ Frame(e, r1, k1, {A[2].r}, {})
         [] op = "dbl"      -> Query(e, r1, k1, On({"C05", "C06"}) => DblOK(Fi(A[1].r), Val(R[A[1].r]), 4, e.ret))
         [] op = "c_getd"   -> Query(e, r1, k1, On({"C05", "C06"}) => DblOK(Fi(A[1].r), Val(R[A[1].r]), A[2].i, e.ret))
         [] op = "c_getarb" -> Query(e, r1, k1, On({"C05", "C02", "C06"}) => ArbOK(Fi(A[1].r), Val(R[A[1].r]), A[2].i, e.ret))
         [] op = "cond"     -> Query(e, r1, k1, On({"C15"}) => CondElemOK(Fi(A[1].r), Val(R[A[1].r]), e.ret))
         [] op = "parts"    -> Query(e, r1, k1, On({"C17", "C06"}) => PartsOK(A[1].r, e.ret))
         [] op = "num"      -> Query(e, r1, k1, On({"C17", "C06"}) => BCmp(e.ret, EQ(ENorm(Val(R[A[1].r])))[1]) = 0)
         [] op = "tompz"    -> Query(e, r1, k1, On({"C17", "C06"}) => QCmp(QInt(e.ret), EQ(Val(R[A[1].r]))) = 0)
         [] op = "tompq"    -> Query(e, r1, k1, On({"C17", "C06"}) => e.ret = EQ(ENorm(Val(R[A[1].r]))))
         [] op = "hash"     -> Query(e, r1, k1, On({"C16", "C06"}) => HashOK(A[1].r, e.ret))
         [] op = "uset"     -> Query(e, r1, k1, On({"C16", "C06"}) => UsetOK(e))
         \* text
         [] op = "str"      -> Query(e, r1, k1, On({"C12", "C06"}) => StrOK(Fi(A[1].r), R[A[1].r], A[2].i, e.ret.c))
         [] op = "strx"     -> Query(e, r1, k1, On({"C12", "C06"}) => LET f == Fi(A[1].r) x == R[A[1].r] IN
                                  /\ IF EIsInt(x) THEN StrOK(f, x, 1, e.ret[1].c) ELSE StrOK(f, x, 3, e.ret[1].c)
                                  /\ StrOK(f, x, 3, e.ret[2].c) /\ e.ret[3] = e.ret[2])
         [] op = "c_str"    -> Query(e, r1, k1, On({"C12", "C06"}) => CStrOK(Fi(A[1].r), R[A[1].r], A[2].c, A[4].i, e.ret.c))
         [] op = "print"    -> Query(e, r1, k1, On({"C12", "C06"}) => CStrOK(Fi(A[1].r), R[A[1].r], A[2].c, A[4].i, e.ret.c))
         [] op = "fprint"   -> Query(e, r1, k1, On({"C12"}) => LET s == e.ret.c  f == F[K[A[1].k]]  c == SkipTo(s, 1, {44}) IN
                                  c < Len(s) /\ s[Len(s)] = RPAR /\ ParsesTo(SubSeq(s, 13, c - 1), <<120>>, f.pol, f.den))
         [] op = "depr"     -> Query(e, r1, k1, On({"C17", "C12"}) => \A j \in 1..Len(e.ret) : e.ret[j])
         [] op = "strrt"    -> Put(e, r1, k1, A[1].r, R[A[2].r].f, Val(R[A[2].r]))
         [] op = "read"     -> LET n == Len(A) - 2
                                   rd == ReadStream(A[Len(A)].c, CodesOf(F[K[A[1].k]].name), n)
                                   pol == F[K[A[1].k]].pol
                               IN IF rd.ok
                                  THEN /\ On({"C12"}) => NoExc(e)
                                       /\ NoExc(e) => Multi(e, r1, k1, [j \in 1..n |-> A[1 + j].r],
                                            [j \in 1..n |-> LET v == EReduce(pol, rd.vals[j].n, rd.vals[j].d) IN [f |-> K[A[1].k], n |-> v.n, d |-> v.d]])
                                       /\ On({"C12"}) => e.ret.c = rd.rest
                                  \* a failed read: what came before it has been read, nothing else has changed
                                  ELSE LET m == Len(rd.vals) IN
                                       /\ On({"C12"}) => ~NoExc(e)
                                       /\ (On({"C12"}) /\ Cardinality({A[1 + j].r : j \in 1..n}) = n) => \A j \in 1..n :
                                            LET x == R[A[1 + j].r]  y == r1[A[1 + j].r] IN
                                            IF j <= m THEN y.f = K[A[1].k] /\ EEq(Val(y), EReduce(pol, rd.vals[j].n, rd.vals[j].d))
                                            ELSE IF j = m + 1 /\ x.f < 0 THEN y.f = Q /\ EIsZero(Val(y))
                                            ELSE SameVal(y, x)
                                       /\ Frame(e, r1, k1, {A[1 + j].r : j \in 1..n}, {})
         [] op = "streamrt" -> LET c == ColonAt(e) IN Multi(e, r1, k1, [j \in 1..(Len(A) - c) |-> A[c + j].r], [j \in 1..(Len(A) - c) |-> R[A[j].r]])
         \* archives, containers
         [] op = "save"     -> Save(e, r1, k1)
         [] op = "load"     -> Load(e, r1, k1, f1)
         [] op \in {"aopen", "aput", "aclose", "ropen", "rclose", "legacy"} -> Query(e, r1, k1, TRUE)
         [] op = "rget"     -> Get(e, r1, k1, f1)
         [] op = "vecrt"    -> LET c == ColonAt(e) IN Multi(e, r1, k1, [j \in 1..(Len(A) - c) |-> A[c + j].r], [j \in 1..(Len(A) - c) |-> R[A[1 + j].r]]) /\ e.ret = c - 2
         [] op = "rot"      -> LET n == Len(A) IN Multi(e, r1, k1, RegsOf(A), [j \in 1..n |-> R[A[IF j = 1 THEN n ELSE j - 1].r]])
         [] op = "sort"     -> NoExc(e) /\ (On({"C03", "C09"}) => SortOK(e, r1)) /\ Frame(e, r1, k1, {A[j].r : j \in 1..Len(A)}, {})
         \* Python
         [] op = "mkgp"     -> NoExc(e) /\ k1[A[1].k] = K[A[2].k] /\ Frame(e, r1, k1, {}, {A[1].k})
         [] op = "py_gc"    -> Query(e, r1, k1, TRUE)
         [] op = "py_bad"   -> ~NoExc(e) /\ Frame(e, r1, k1, {}, {})
         [] op = "py_sum"   -> NoExc(e) /\ r1[A[1].r].f >= 0 /\ EEq(Val(r1[A[1].r]), SumVals([j \in 1..(Len(A) - 2) |-> R[A[2 + j].r]], Len(A) - 2)) /\ Frame(e, r1, k1, {A[1].r}, {})
         [] op = "ra_mk"    -> RaMk(e, r1, k1, f1)
         [] op = "ra_elem"  -> Put(e, r1, k1, A[1].r, K[A[2].k], OfCoef(F[K[A[2].k]].pol, A[3].v))
         [] op = "ra_num"   -> Put(e, r1, k1, A[1].r, K[A[2].k], EOfQ(A[4].q))
         \* polynomial utilities
         [] IsPolyOp(op)    -> Query(e, r1, k1, PolyOpOK(e, On({"C14"}), On({"C15"}), On({"C12"}), On({"C07"})))

Step(e) ==
    LET r1 == R1(e)  k1 == K1(e)  f1 == F1(e)
        allowed == /\ Cases(e, r1, k1, f1)
                   /\ Enclosed(e, r1, f1)
                   /\ WellFormed(e, r1, f1)
                   /\ UniqueParents(e, f1)
                   /\ Lifetimes(e, f1)
    IN /\ allowed = TRUE
       /\ R' = r1 /\ K' = k1 /\ F' = f1 /\ Q' = Q
       /\ S' = S1(e)
       /\ H' = IF e.op \in {"reset", "leak"} THEN {}
               ELSE IF e.op = "hash" THEN H \cup {[f |-> R[e.a[1].r].f, n |-> R[e.a[1].r].n, d |-> R[e.a[1].r].d, t |-> "r", h |-> e.ret]}
               ELSE IF e.op = "fhash" THEN H \cup {[f |-> K[e.a[1].k], n |-> <<>>, d |-> "1", t |-> "k", h |-> e.ret]}
               ELSE H

\* the program starts with the rationals only
Init(q) ==
    /\ R = [i \in 0..11 |-> [f |-> -2]]
    /\ K = [i \in 0..11 |-> -2]
    /\ Q = q
    /\ F = << >> /\ S = << >> /\ H = {}
=============================================================================
