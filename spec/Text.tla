-------------------------------- MODULE Text --------------------------------
(* Text formats: polynomials, decimal numbers, balls, streams. A text is a  *)
(* sequence of character codes.                                              *)
EXTENDS Alg, FiniteSets

SP == 32  LPAR == 40  RPAR == 41  STAR == 42  PLUS == 43  MINUS == 45  DOT == 46
SLASH == 47  CARET == 94  TILDE == 126  LBRA == 91  RBRA == 93
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsSpace(c) == c \in 9..13 \/ c = 32

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Digits == "0123456789"
CodeTable == [c \in {SubSeq(Upper, i, i) : i \in 1..26} \cup {SubSeq(Lower, i, i) : i \in 1..26}
                    \cup {SubSeq(Digits, i, i) : i \in 1..10} \cup {"_"} |->
              IF c = "_" THEN 95
              ELSE IF \E i \in 1..26 : SubSeq(Upper, i, i) = c THEN 64 + (CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c)
              ELSE IF \E i \in 1..26 : SubSeq(Lower, i, i) = c THEN 96 + (CHOOSE i \in 1..26 : SubSeq(Lower, i, i) = c)
              ELSE 47 + (CHOOSE i \in 1..10 : SubSeq(Digits, i, i) = c)]
CodeOf(c) == IF c \in DOMAIN CodeTable THEN CodeTable[c] ELSE 0
CodesOf(s) == [i \in 1..Len(s) |-> CodeOf(SubSeq(s, i, i))]

\* names of generators: [A-Za-z_][A-Za-z0-9_]*
ValidName(v) == /\ Len(v) > 0
                /\ IsAlpha(v[1]) \/ v[1] = 95
                /\ \A i \in 2..Len(v) : IsAlpha(v[i]) \/ IsDigit(v[i]) \/ v[i] = 95

\* character at position i; 0 beyond the end
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* first position >= i where the character is not in the given class
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN Skip(s, i + 1, C) ELSE i
RECURSIVE SkipTo(_, _, _)
SkipTo(s, i, C) == IF i <= Len(s) /\ s[i] \notin C THEN SkipTo(s, i + 1, C) ELSE i
Blanks(s, i) == Skip(s, i, {SP})
DigitSet == 48..57
RECURSIVE NumOf(_, _, _, _)
NumOf(s, i, j, acc) == IF i >= j THEN acc ELSE NumOf(s, i + 1, j, (acc ** "10") ++ FromInt(s[i] - 48))
Number(s, i, j) == NumOf(s, i, j, "0")              \* digits s[i..j-1]
RECURSIVE SmallOf(_, _, _, _)
SmallOf(s, i, j, acc) == IF i >= j THEN acc ELSE SmallOf(s, i + 1, j, acc * 10 + (s[i] - 48))

------------------------------------------------------------------------------
(* Polynomials: sums of monomials                                            *)
(*   [signs] [coefficient] [*] [variable [^] exponent]                       *)
(* with blanks between the tokens; a coefficient is n or n/d.                *)
Bad == [ok |-> FALSE]
Mono(c, p) == [ok |-> TRUE, c |-> c, p |-> p]
\* is there exactly one slash with digits on both sides in s[i..j-1]?
Coefficient(s, i, j) ==
    LET k == SkipTo(s, i, {SLASH})
    IN IF k >= j THEN [ok |-> TRUE, q |-> QInt(Number(s, i, j))]
       ELSE IF k = i \/ k + 1 = j \/ SkipTo(s, k + 1, {SLASH}) < j THEN [ok |-> FALSE]
       ELSE LET d == Number(s, k + 1, j)
            IN IF BIsZero(d) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, q |-> QCanon(<< Number(s, i, k), d >>)]
HasVar(s, i, v) == i + Len(v) - 1 <= Len(s) /\ \A j \in 1..Len(v) : s[i + j - 1] = v[j]
Exponent(s, i, c) ==
    LET j == Skip(s, i, DigitSet)
    IN IF j = i \/ Blanks(s, j) <= Len(s) THEN Bad ELSE Mono(c, SmallOf(s, i, j, 0))
Power(s, i, v, c) == \* variable and exponent from position i
    IF ~HasVar(s, i, v) THEN Bad
    ELSE LET j == i + Len(v)  k == Blanks(s, j)
         IN IF IsDigit(At(s, j)) THEN Exponent(s, j, c)
            ELSE IF k > Len(s) THEN Mono(c, 1)
            ELSE IF s[k] # CARET THEN Bad
            ELSE Exponent(s, Blanks(s, k + 1), c)
Minuses(s, i, j) == {t \in i..(j - 1) : s[t] = MINUS}
Monomial(s, v) ==
    LET i == Skip(s, 1, {SP, PLUS, MINUS})
        neg == Cardinality(Minuses(s, 1, i)) % 2 = 1
        j == Skip(s, i, DigitSet \cup {SLASH})
        co == IF IsDigit(At(s, i)) THEN Coefficient(s, i, j) ELSE [ok |-> TRUE, q |-> QInt("1")]
        k == Blanks(s, IF IsDigit(At(s, i)) THEN j ELSE i)
    IN IF i > Len(s) \/ ~co.ok THEN Bad
       ELSE LET c == IF neg THEN QNeg(co.q) ELSE co.q
            IN IF k > Len(s) THEN Mono(c, 0)
               ELSE IF s[k] = STAR THEN LET l == Blanks(s, k + 1) IN IF l > Len(s) THEN Bad ELSE Power(s, l, v, c)
               ELSE Power(s, k, v, c)
MonoElem(m) == IF BIsZero(m.c[1]) THEN EZero
               ELSE [n |-> [i \in 1..(m.p + 1) |-> IF i = m.p + 1 THEN m.c[1] ELSE "0"], d |-> m.c[2]]
RECURSIVE Monomials(_, _, _, _)
Monomials(s, i, v, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, n |-> acc.n, d |-> acc.d]
    ELSE LET st == Blanks(s, i)
             en == SkipTo(s, Skip(s, st, {SP, PLUS, MINUS}), {PLUS, MINUS})
             m == Monomial(SubSeq(s, st, en - 1), v)
         IN IF ~m.ok THEN [ok |-> FALSE, n |-> <<>>, d |-> "1"]
            ELSE Monomials(s, en, v, ENorm(EAdd(acc, MonoElem(m))))
\* polynomial with the given variable: [ok, n, d], value n/d
ParsePoly(s, v) == IF ~ValidName(v) THEN [ok |-> FALSE, n |-> <<>>, d |-> "1"] ELSE Monomials(s, 1, v, EZero)
\* an element: everything after a tilde is only for the reader
ParseElem(s, v) == ParsePoly(SubSeq(s, 1, SkipTo(s, 1, {TILDE}) - 1), v)
ParsesTo(s, v, n, d) == LET p == ParsePoly(s, v) IN p.ok /\ EEq([n |-> p.n, d |-> p.d], [n |-> n, d |-> d])

------------------------------------------------------------------------------
(* Decimal numbers: [-]digits[.digits][e[+-]digits]                          *)
Pow10(k) == IF k >= 0 THEN << BPow("10", k), "1" >> ELSE << "1", BPow("10", -k) >>
Decimal(s) ==
    LET neg == At(s, 1) = MINUS
        i == IF neg THEN 2 ELSE 1
        j == Skip(s, i, DigitSet)
        k == IF At(s, j) = DOT THEN Skip(s, j + 1, DigitSet) ELSE j
        frac == IF k > j THEN k - j - 1 ELSE 0
        man == IF frac > 0 THEN Number(SubSeq(s, i, j - 1) \o SubSeq(s, j + 1, k - 1), 1, (j - i) + frac + 1) ELSE Number(s, i, j)
        hase == At(s, k) = 101
        es == IF hase THEN IF At(s, k + 1) \in {PLUS, MINUS} THEN k + 2 ELSE k + 1 ELSE k
        ee == IF hase THEN Skip(s, es, DigitSet) ELSE k
        ex == IF hase THEN (IF At(s, k + 1) = MINUS THEN -1 ELSE 1) * SmallOf(s, es, ee, 0) ELSE 0
        ok == j > i /\ (k = j \/ frac >= 0) /\ (hase => ee > es) /\ ee > Len(s)
        q == QMul(QInt(man), Pow10(ex - frac))
    IN IF ~ok THEN [ok |-> FALSE, q |-> <<"0", "1">>] ELSE [ok |-> TRUE, q |-> IF neg THEN QNeg(q) ELSE q]

\* a decimal text for the double d (8 significant digits)
ApproxOK(s, d) ==
    IF d[1] # "n" THEN s = (IF d[1] = "inf" THEN <<105, 110, 102>> ELSE <<MINUS, 105, 110, 102>>)
    ELSE LET t == Decimal(s)  x == Dyadic(d[2], d[3])
         IN t.ok /\ QCmp(QMul(QAbs(QSub(t.q, x)), Pow10(7)), QAbs(x)) <= 0

\* balls: a decimal number, [number +/- number] or [+/- number]
PM == <<PLUS, SLASH, MINUS>>
BallText(s) ==
    IF At(s, 1) # LBRA THEN LET t == Decimal(s) IN [ok |-> t.ok, m |-> t.q, r |-> <<"0", "1">>]
    ELSE LET k == CHOOSE j \in 2..(Len(s) + 1) : (j = Len(s) + 1 \/ SubSeq(s, j, j + 2) = PM) /\ \A t \in 2..(j - 1) : SubSeq(s, t, t + 2) # PM
             m == IF k = 2 THEN [ok |-> TRUE, q |-> <<"0", "1">>] ELSE Decimal(SubSeq(s, 2, k - 2))
             r == Decimal(SubSeq(s, k + 4, Len(s) - 1))
         IN IF k > Len(s) \/ s[Len(s)] # RBRA THEN [ok |-> FALSE, m |-> <<"0", "1">>, r |-> <<"0", "1">>]
            ELSE [ok |-> m.ok /\ r.ok, m |-> m.q, r |-> r.q]
BallTextHas(f, s, x) == LET b == BallText(s)
                        IN b.ok /\ ECmpQ(f, x, QAdd(b.m, b.r)) <= 0 /\ ECmpQ(f, x, QSub(b.m, b.r)) >= 0

------------------------------------------------------------------------------
(* What is printed for an element x of the field f. flags: 1 algebraic,      *)
(* 2 decimal, 4 ball                                                         *)
\* a stored ball that is the whole line prints as nan, [nan +/- inf] or [+/- inf]
WholeLine == {<<110, 97, 110>>, <<91, 110, 97, 110, 32, 43, 47, 45, 32, 105, 110, 102, 93>>, <<91, 43, 47, 45, 32, 105, 110, 102, 93>>}
ApproxPart(f, x, flags, s) == IF flags \in {2, 3} THEN ApproxOK(s, DoubleIn(f, x, 4))
                              ELSE IF x.b = <<>> THEN s \in WholeLine ELSE BallTextHas(f, s, x)
CStrOK(f, x, v, flags, s) ==
    IF flags = 1 THEN ParsesTo(s, v, x.n, x.d)
    ELSE IF flags \in {2, 4} THEN ApproxPart(f, x, flags, s)
    ELSE LET k == SkipTo(s, 1, {TILDE})
         IN /\ k > 2 /\ k + 1 < Len(s) /\ s[k - 1] = SP /\ s[k + 1] = SP
            /\ ParsesTo(SubSeq(s, 1, k - 2), v, x.n, x.d)
            /\ ApproxPart(f, x, flags, SubSeq(s, k + 2, Len(s)))
StrOK(f, x, flags, s) ==
    LET v == CodesOf(f.name)
    IN IF flags \in {1, 2, 4} THEN CStrOK(f, x, v, flags, s)
       ELSE /\ Len(s) > 2 /\ s[1] = LPAR /\ s[Len(s)] = RPAR
            /\ CStrOK(f, x, v, flags, SubSeq(s, 2, Len(s) - 1))

------------------------------------------------------------------------------
(* Reading n elements from a stream, one character between them. An element  *)
(* ends at a blank unless it is in parentheses.                              *)
SpaceSet == (9..13) \cup {32}
RECURSIVE NoBlanks(_, _)
NoBlanks(s, i) == IF i > Len(s) THEN <<>> ELSE (IF IsSpace(s[i]) THEN <<>> ELSE <<s[i]>>) \o NoBlanks(s, i + 1)
RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(s, i, v, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, vals |-> acc, rest |-> SubSeq(s, i, Len(s))]
    ELSE LET st == IF acc = <<>> THEN i ELSE i + 1
             par == At(s, st) = LPAR
             en == IF par THEN SkipTo(s, st, {RPAR}) ELSE SkipTo(s, st, SpaceSet)
             txt == IF par THEN NoBlanks(SubSeq(s, st + 1, en - 1), 1) ELSE SubSeq(s, st, en - 1)
             p == ParseElem(txt, v)
         IN IF (par /\ en > Len(s)) \/ ~p.ok THEN [ok |-> FALSE, vals |-> acc, rest |-> <<>>]
            ELSE ReadFrom(s, IF par THEN en + 1 ELSE en, v, n - 1, Append(acc, [n |-> p.n, d |-> p.d]))
ReadStream(s, v, n) == ReadFrom(s, 1, v, n, <<>>)
=============================================================================
