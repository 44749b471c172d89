------------------------------ MODULE Enumerate ------------------------------
(* Small scopes, completely: programs of the driver that are enumerated by    *)
(* TLC rather than drawn at random. Every behaviour of this specification is   *)
(* one program: a sequence of letters, one per step, each letter a piece of     *)
(* program (commands, separated by ";"). The steps follow the slots of the      *)
(* family FAMILY; what may stand in a slot can depend on the steps before.      *)
(* Complete programs are written to the file LOG, executed in the real code     *)
(* and judged by EAntic.tla.                                                    *)
EXTENDS Roots, TLC, CSV, IOUtils

Family == IOEnv.FAMILY
Deep   == IOEnv.DEEP = "1"
VARIABLES h,      \* the letters so far (indices into the choices)
          text    \* the program so far

S(i) == ToString(i)
RECURSIVE Cat(_, _)
Cat(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Cat(Tail(s), sep)
Prog(s) == Cat(s, ";")
\* all commands that come from replacing the operator
EachOp(ops, f(_)) == Prog([i \in 1..Len(ops) |-> f(ops[i])])
Arith == <<"+", "-", "*", "/">>
Rels  == <<"==", "!=", "<", "<=", ">", ">=">>

------------------------------------------------------------------------------
(* Fields: the rationals, a linear one, quadratic ones with generators of     *)
(* both signs, a cubic and a quartic one                                      *)
Flds == << "mkq k0",
           "c_mk k0 v:-2,3 s:x b:43,-6,1,-3 #64",
           "c_mk k0 v:-2,0,1 s:x b:90,-6,1,-3 #64",
           "c_mk k0 v:-3,0,4 s:x b:-55,-6,1,-3 #64",
           "c_mk k0 v:-1,-1,0,1 s:x b:85,-6,1,-3 #64",
           "c_mk k0 v:1,0,-10,0,1 s:x b:20,-6,1,-4 #64" >>
Degs == << 1, 1, 2, 2, 3, 4 >>
\* coefficients of elements in fields of degree 1, 2, 3
Small == << << "0", "1", "-1", "1/2", "-3/2", "7", "-4/3" >>,
            << "0", "1", "-3/2", "0,1", "0,-1", "1,1", "1/2,-1/3", "-2,3" >>,
            << "0", "-1", "5/2", "0,1", "0,0,1", "0,0,-1/2", "1,-1,2", "1/2,0,-3" >>,
            << "0", "1", "-5/2", "0,1", "0,0,-1", "0,0,0,1/2", "1,-1,1,-1", "0,1/3" >> >>
Elem(r, c) == "newv " \o r \o " k0 mpq v:" \o c
ElemsOf(f) == Small[Degs[f]]

(* Numbers of all types at the ends of their ranges                          *)
Ends(t, lo, hi) == [j \in 1..Len(lo) |-> t \o ":" \o lo[j]] \o [j \in 1..Len(hi) |-> t \o ":" \o hi[j]]
CppNumbers == Ends("short", <<"-32768", "-1", "0">>, <<"1", "32767">>) \o Ends("ushort", <<"0">>, <<"1", "65535">>)
           \o Ends("int", <<"-2147483648", "-2147483647", "-1", "0">>, <<"1", "2", "2147483647">>) \o Ends("uint", <<"0">>, <<"1", "2147483648", "4294967295">>)
           \o Ends("long", <<"-9223372036854775808", "-4611686018427387905", "-1", "0">>, <<"1", "4611686018427387903", "4611686018427387904", "9223372036854775807">>)
           \o Ends("ulong", <<"0">>, <<"1", "9223372036854775807", "9223372036854775808", "18446744073709551615">>)
           \o Ends("llong", <<"-9223372036854775808", "-4611686018427387905", "0">>, <<"1", "4611686018427387904", "9223372036854775807">>)
           \o Ends("ullong", <<"0">>, <<"1", "4611686018427387904", "9223372036854775808", "18446744073709551615">>)
           \o Ends("mpz", <<"-9223372036854775809", "-1", "0">>, <<"2", "18446744073709551616">>) \o Ends("mpq", <<"-7/2", "0">>, <<"1", "1/9223372036854775808">>)
CNumbers   == Ends("si", <<"-9223372036854775808", "-4611686018427387905", "-4611686018427387904", "-1", "0">>, <<"1", "4611686018427387903", "4611686018427387904", "9223372036854775807">>)
           \o Ends("ui", <<"0">>, <<"1", "4611686018427387903", "4611686018427387904", "9223372036854775808", "18446744073709551615">>)
           \o Ends("fmpz", <<"-18446744073709551616", "-1", "0">>, <<"1", "4611686018427387904">>) \o Ends("fmpq", <<"-1/2", "0">>, <<"3", "7/9223372036854775809">>)

------------------------------------------------------------------------------
(* arith: all pairs of small elements, all forms, all aliasing                *)
ArithForms(o) == Prog(<< "bin " \o o \o " r2 r0 r1", "c_bin " \o o \o " r2 r0 r1",
                         "newc r3 r0", "c_bin " \o o \o " r3 r3 r1", "newc r3 r1", "c_bin " \o o \o " r3 r0 r3", "newc r3 r1", "c_bin " \o o \o " r3 r3 r3",
                         "newc r3 r0", "inp " \o o \o " r3 r1", "newc r3 r1", "inp " \o o \o " r3 r3" >>)
(* number: elements with numbers of all types                                *)
CppForms(o, n) == Prog(<< "bin " \o o \o " r2 r0 " \o n, "bin " \o o \o " r2 " \o n \o " r0", "newc r3 r0", "inp " \o o \o " r3 " \o n >>)
CForms(o, n)   == Prog(<< "c_bin " \o o \o " r2 r0 " \o n, "newc r3 r0", "c_bin " \o o \o " r3 r3 " \o n >>)
QForms(n)      == EachOp(<<"-", "/">>, LAMBDA o : Prog(<< "c_qbin " \o o \o " r2 " \o n \o " r0", "newc r3 r0", "c_qbin " \o o \o " r3 " \o n \o " r3" >>))
Fmpq == Ends("fmpq", <<"-1/2", "0">>, <<"3", "1", "7/9223372036854775809">>)
(* power, inverse, negation                                                  *)
Powers == Prog([j \in 1..13 |-> LET n == j - 7 IN "pow r2 r0 #" \o S(n)] \o [j \in 1..9 |-> "c_pow r2 r0 #" \o S(j - 1)]
            \o << "newc r3 r0", "c_pow r3 r3 #3", "c_neg r2 r0", "newc r3 r0", "c_neg r3 r3", "neg r2 r0", "c_inv r2 r0", "newc r3 r0", "c_inv r3 r3", "c_set r2 r0", "c_set r2 r2",
                  "c_zero r3", "c_one r3", "c_gen r3", "c_swap r2 r3", "c_setnf r2 r0 #53", "pos r3 r0" >>)

(* relations *)
RelForms(n) == EachOp(Rels, LAMBDA o : "rel " \o o \o " r0 " \o n \o ";rel " \o o \o " " \o n \o " r0")
RelPairs    == EachOp(Rels, LAMBDA o : "rel " \o o \o " r0 r1") \o ";c_cmp r0 r1;c_eq r0 r1"
\* elements close to the ends of the machine types, and on both sides of them
EndElems(f) == LET big == << "2147483648", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "4611686018427387904" >>
               IN IF Degs[f] = 1 THEN ElemsOf(f) \o big
                  ELSE ElemsOf(f) \o [j \in 1..Len(big) |-> big[j] \o ",1/1000000000000000000000"] \o [j \in 1..Len(big) |-> big[j] \o ",-1/1000000000000000000000"]

(* rounding: quotients of small elements *)
Fracs == << "-2", "-3/2", "-1", "0", "1/2", "1", "5/2" >>
RoundElems(f) == IF Degs[f] = 1 THEN Fracs \o << "-1/3", "7/3", "100/7", "-100/7" >>
                 ELSE Fracs \o << "0,1", "0,-1", "1,1", "-1,1/2", "3,-2", "0,1/3", "-1/2,-1/2", "7,5", "0,100", "-17,12", "17,-12", "-41,29", "41,-29" >>

(* doubles: m 2^e around the ends of the ranges and halfway points, exactly   *)
(* and a little to both sides                                                 *)
Mants == << "1", "4503599627370496", "4503599627370497", "9007199254740991", "9007199254740993", "18014398509481983", "18014398509481981", "3" >>
Exps  == << -1130, -1128, -1127, -1126, -1077, -1076, -1075, -1074, -1073, -1022, -54, -53, 0, 1, 970, 971, 972, 1022, 1023, 1024 >>
TwoTo(m, e) == IF e >= 0 THEN BMul(m, BShift("1", e)) ELSE m \o "/" \o BShift("1", -e)
\* m 2^e + s 2^(e-200) x, over a common denominator
Side(m, e, s) == LET d == e - 200
                     den == IF d >= 0 THEN "1" ELSE BShift("1", -d)
                     num == IF d >= 0 THEN BShift(m, e) ELSE BShift(m, 200)
                 IN IF d >= 0 THEN num \o "," \o BMul(s, BShift("1", d)) ELSE num \o "/" \o den \o "," \o s \o "/" \o den
Modes == Prog([j \in 1..5 |-> "c_getd r0 #" \o S(j - 1)] \o <<"dbl r0">>)
Precs == Prog([j \in 1..9 |-> "c_getarb r0 #" \o <<"2", "3", "10", "24", "53", "64", "65", "128", "300">>[j]])

(* histories of queries on an element that is close to being an integer, on   *)
(* one that is close to it, and on the field                                  *)
HistFlds == << "c_mk k0 v:-2,0,1 s:x b:90,-6,1,-3 #64;newv r0 k0 mpq v:-225058681,159140520;newv r1 k0 mpq v:-225058681/3,159140519/3",
               "mk k0 v:-1,-1,0,1 s:x s:1.32+/-0.01 #64;newv r0 k0 mpq v:7,0,1/1152921504606846976;newv r1 k0 mpq v:7,1/1152921504606846976",
               "c_mk k0 v:1,0,-10,0,1 s:x b:20,-6,1,-4 #2;newv r0 k0 mpq v:-1,3,1;newv r1 k0 mpq v:-11/2,1,1" >>
Queries == << "sgn r0", "floor r0", "c_ceil r1", "c_cmp r0 r1", "c_getd r0 #4", "c_getarb r1 #200", "refine k0 #100", "c_fdiv r0 r1", "str r0 #3", "hash r0", "rel < r0 mpq:1/1000000007", "c_eval r0 #20",
              "bin - r2 r0 r1", "inp / r1 r0", "c_check r0 #128", "asg r2 r0", "refine k0 #400", "c_cfrac r0 r3 #2" >>
NQ == IF Deep THEN Len(Queries) ELSE 11
Closing == "sgn r0;c_floor r1;c_cmp r0 r1;dbl r0"

(* texts over small alphabets                                                *)
Alphabet == << "x", "2", "0", "+", "-", "*", "/", "^", "%20" >>
TLen == IF Deep THEN 5 ELSE 4
Alphabet2 == << "x", "1", "(", ")", "~", "%20", "-", "3/2" >>

(* polynomials with small coefficients                                       *)
Coef == << "0", "1", "-1", "2", "-2", "3" >>
NC == IF Deep THEN 6 ELSE 5
PolyOf(hh) == PolyTrim([j \in 1..4 |-> Coef[hh[j]]])
V(p) == "v:" \o Cat(p, ",")
PolyCmds(p) == IF Len(p) < 2 THEN "p_sqf " \o (IF p = <<>> THEN "v:" ELSE V(p))
               ELSE "p_sqf " \o V(p) \o ";p_at1 " \o V(p)
                 \o (IF ~SquareFree(p) THEN "" ELSE Prog(<<"", "p_sturm " \o V(p), "p_vca01 " \o V(p), "p_nvca " \o V(p), "p_nub " \o V(p), "p_has " \o V(p), "p_ub " \o V(p), "p_iso " \o V(p),
                                                         "p_iso " \o V(p) \o " #1", "p_desc " \o V(p) \o " #3">>))
\* irreducible polynomials of degree at most three: no rational root
Irreducible(p) == Len(p) \in {3, 4} /\ \A n \in -3..3, d \in 1..3 : BSgn(PolyAtRat(p, FromInt(n), FromInt(d))) # 0
PrimitivePoly(p) == PolyContent(p) = "1"
Balls == << <<"0", 0, "1", 0>>, <<"1", -1, "1", -1>>, <<"-1", -1, "1", -1>>, <<"3", -1, "1", -1>>, <<"-3", -1, "1", -1>>, <<"0", 0, "1", 2>>,
            <<"5", -1, "1", -1>>, <<"-5", -1, "1", -1>>, <<"1", 0, "1", 0>>, <<"0", 0, "1", -2>>, <<"3", 0, "1", 1>>, <<"7", -3, "1", -6>> >>
B(b) == "b:" \o b[1] \o "," \o S(b[2]) \o "," \o b[3] \o "," \o S(b[4])
FieldCmds(p) == Prog([j \in 1..Len(Balls) |-> Prog(<< "p_uniq " \o V(p) \o " " \o B(Balls[j]) \o " #64", "c_mk k0 " \o V(p) \o " s:x " \o B(Balls[j]) \o " #64" >>)]
                   \o << "embs " \o V(p) \o " s:x #64 #3 k0 k1 k2", "finfo k0" >>)
\* steps need a ball with exactly one root
StepCmds(p) == LET st == SturmSeq(p) IN
               Prog([j \in 1..Len(Balls) |-> Prog([i \in 1..3 |-> LET a == V(p) \o " " \o B(Balls[j]) \o " #" \o <<"2", "10", "64">>[i]
                                                                  IN IF RootsInBall(st, Balls[j]) # 1 THEN "p_eval " \o a
                                                                     ELSE Prog(<< "p_newton " \o a, "p_bisect " \o a, "p_steps " \o a \o " #0", "p_steps " \o a \o " #1", "p_bisarf " \o a, "p_eval " \o a >>)])])

(* coercion: elements of two fields and of the rationals                     *)
Kinds == << "newq R mpq:3/2", "newn R k0 mpq:-1/2", "gen R k0", "newn R k1 int:2", "gen R k1", "newn R k2 int:5" >>
           \o << "newn R k1 mpq:-7/3", "newn R k1 mpq:3/4", "newv R k0 mpq v:-1/2,1/3", "newv R k1 mpq v:-4/3,1", "newq R int:0", "newn R k0 int:0", "newn R k1 mpq:18446744073709551616/3" >>
\* replaces R by a register
RECURSIVE Sub(_, _, _)
Sub(s, r, j) == IF j > Len(s) THEN "" ELSE (IF SubSeq(s, j, j) = "R" THEN r ELSE SubSeq(s, j, j)) \o Sub(s, r, j + 1)
CoerceCmds == Prog([j \in 1..4 |-> Prog(<< "bin " \o Arith[j] \o " r2 r0 r1", "newc r3 r0", "inp " \o Arith[j] \o " r3 r1" >>)] \o << EachOp(Rels, LAMBDA o : "rel " \o o \o " r0 r1") >>
                \o << "floordiv r0 r1", "newe r2 k0 r0", "newe r2 k1 r0", "newe r2 k2 r1", "newc r3 r0", "asg r3 r1", "newc r3 r0", "swap r3 r1", "swap r3 r1", "asgn r3 int:4", "asgn r3 mpq:4/3" >>)

(* components and conversions of numbers of all types                        *)
NumCmds(n) == Prog(<< "newq r0 " \o n, "parts r0", "num r0", "tompq r0", "tompz r0", "hash r0", "newn r1 k0 " \o n, "parts r1", "num r1", "tompq r1", "tompz r1", "hash r1", "asgn r1 " \o n, "parts r1",
                      "rel == r0 r1", "c_getd r0 #4", "floor r0", "strx r0" >>)
CNumCmds(n) == Prog(<< "new r0 k0", "c_setn r0 " \o n, "parts r0", "num r0", "tompq r0", "tompz r0", "hash r0", "c_eq r0 " \o n, "c_cmp r0 " \o n, "floor r0", "c_getd r0 #0" >>)
VecTypes == << "int", "uint", "long", "ulong", "mpz", "mpq" >>
VecCoef(t) == CASE t = "int" -> <<"-2147483648", "0", "1">> [] t = "uint" -> <<"4294967295", "0", "2">> [] t = "long" -> <<"-9223372036854775808", "0", "4611686018427387904">>
                [] t = "ulong" -> <<"18446744073709551615", "0", "1">> [] t = "mpz" -> <<"-18446744073709551616", "0", "6">> [] t = "mpq" -> <<"-1/3", "0", "1/2">>

(* archives: what is written in which order and what becomes of it           *)
Items == << "r0", "r1", "r2", "k0", "k1", "r3" >>
Formats == << "json", "bin", "xml", "pbin" >>
Saved == "c_mk k0 v:-2,0,1 s:x b:90,-6,1,-3 #64;c_mk k1 v:-1,-1,0,1 s:x b:85,-6,1,-3 #64;newv r0 k0 mpq v:1/2,-3;gen r1 k0;newv r2 k1 mpq v:0,1,-1/2;newq r3 mpq:7/3"
Meanwhile == << "refine k0 #200", "drop r0;drop r1;drop r2;drop r3;dropk k0;dropk k1", "dropk k0;dropk k1", "drop r0;drop r1;dropk k0;c_mk k5 v:-2,0,1 s:x b:90,-6,1,-3 #64", "drop r0;drop r1;dropk k0;c_mk k5 v:-2,0,1 s:x b:-90,-6,1,-3 #64" >>
\* where the j-th item is read to: the same registers in another order, or others
Dest(it, j, alt) == IF alt THEN SubSeq(it, 1, 1) \o S(5 + j) ELSE it

------------------------------------------------------------------------------
Keep(s) == << s >>
Choices(hh) == LET n == Len(hh) + 1 IN
    CASE Family = "arith" ->
            CASE n = 1 -> [f \in 1..(IF Deep THEN 6 ELSE 5) |-> "reset;" \o Flds[f]]
              [] n = 2 -> [j \in 1..Len(ElemsOf(hh[1])) |-> Elem("r0", ElemsOf(hh[1])[j])]
              [] n = 3 -> [j \in 1..Len(ElemsOf(hh[1])) |-> Elem("r1", ElemsOf(hh[1])[j])]
              [] n = 4 -> Keep("zero r2 k0;" \o EachOp(Arith, ArithForms) \o (IF hh[3] = 1 THEN ";" \o Powers ELSE ""))
              [] OTHER -> <<>>
      [] Family = "number" ->
            CASE n = 1 -> [j \in 1..(IF Deep THEN 5 ELSE 3) |-> "reset;" \o Flds[j + 1]]
              [] n = 2 -> LET e == ElemsOf(hh[1] + 1) k == IF Deep THEN Len(e) ELSE 5 IN [j \in 1..k |-> Elem("r0", e[j]) \o ";zero r2 k0"]
              [] n = 3 -> [j \in 1..Len(CppNumbers) |-> EachOp(Arith, LAMBDA o : CppForms(o, CppNumbers[j]))]
                       \o [j \in 1..Len(CNumbers) |-> EachOp(Arith, LAMBDA o : CForms(o, CNumbers[j]))]
                       \o [j \in 1..Len(Fmpq) |-> QForms(Fmpq[j])]
              [] OTHER -> <<>>
      [] Family = "relation" ->
            CASE n = 1 -> [j \in 1..(IF Deep THEN 5 ELSE 1) |-> "reset;" \o Flds[7 - j]]
              [] n = 2 -> [j \in 1..Len(EndElems(7 - hh[1])) |-> Elem("r0", EndElems(7 - hh[1])[j]) \o ";is r0;sgn r0;c_sgn r0"]
              [] n = 3 -> [j \in 1..Len(CppNumbers) |-> RelForms(CppNumbers[j])] \o [j \in 1..Len(CNumbers) |-> "c_cmp r0 " \o CNumbers[j] \o ";c_eq r0 " \o CNumbers[j]]
              [] OTHER -> <<>>
      [] Family = "pairs" ->
            CASE n = 1 -> [j \in 1..6 |-> "reset;" \o Flds[j]]
              [] n = 2 -> [j \in 1..Len(RoundElems(hh[1])) |-> Elem("r0", RoundElems(hh[1])[j])]
              [] n = 3 -> [j \in 1..Len(RoundElems(hh[1])) |-> Elem("r1", RoundElems(hh[1])[j]) \o ";" \o RelPairs]
              [] OTHER -> <<>>
      [] Family = "round" ->
            CASE n = 1 -> [j \in 1..6 |-> "reset;" \o Flds[j]]
              [] n = 2 -> [j \in 1..Len(RoundElems(hh[1])) |-> Elem("r0", RoundElems(hh[1])[j]) \o ";floor r0;ceil r0;c_floor r0;c_ceil r0;zero r3 k0" \o Prog([m \in 1..7 |-> (IF m = 1 THEN ";" ELSE "") \o "c_cfrac r0 r3 #" \o S(m)])]
              [] n = 3 -> [j \in 1..Len(RoundElems(hh[1])) |-> Elem("r1", RoundElems(hh[1])[j]) \o ";floordiv r0 r1;c_fdiv r0 r1"]
              [] OTHER -> <<>>
      [] Family = "double" ->
            CASE n = 1 -> << "reset;" \o Flds[3], "reset;" \o Flds[2] >>
              [] n = 2 -> [j \in 1..Len(Exps) |-> "zero r1 k0"]
              [] n = 3 -> LET e == Exps[hh[2]] IN
                          [j \in 1..Len(Mants) |-> Elem("r0", TwoTo(Mants[j], e)) \o ";" \o Modes] \o [j \in 1..Len(Mants) |-> Elem("r0", TwoTo("-" \o Mants[j], e)) \o ";" \o Modes]
                          \o (IF hh[1] = 2 THEN <<>> ELSE [j \in 1..Len(Mants) |-> Elem("r0", Side(Mants[j], e, "1")) \o ";" \o Modes \o ";" \o Elem("r0", Side(Mants[j], e, "-1")) \o ";" \o Modes \o ";" \o Precs])
              [] OTHER -> <<>>
      [] Family = "history" ->
            CASE n = 1 -> [j \in 1..(IF Deep THEN 3 ELSE 1) |-> "reset;" \o HistFlds[j]]
              [] n \in 2..4 -> [j \in 1..NQ |-> Queries[j]]
              [] n = 5 -> Keep(Closing)
              [] OTHER -> <<>>
      [] Family = "text" ->
            CASE n = 1 -> << "p_str v: s:", "p_str v:1,2,3,4,5,6 s:" >>
              [] n = 2 + TLen -> Keep(" s:x")
              [] n < 2 + TLen -> << "" >> \o (IF n > 2 /\ hh[n - 1] = 1 THEN <<>> ELSE Alphabet)
              [] OTHER -> <<>>
      [] Family = "stream" ->
            CASE n = 1 -> << "reset;" \o Flds[5] >>
              [] n = 2 -> << "news r0 k0 s:", "read k0 r0 s:" >>
              [] n < 3 + TLen -> IF n > 3 /\ hh[n - 1] = 1 THEN << "" >> ELSE IF n = 3 THEN Alphabet2 ELSE << "" >> \o Alphabet2
              [] n = 3 + TLen -> Keep("")
              [] OTHER -> <<>>
      [] Family = "poly" ->
            CASE n <= 4 -> [j \in 1..NC |-> ""]
              [] n = 5 -> Keep(PolyCmds(PolyOf(hh)))
              [] OTHER -> <<>>
      [] Family = "field" ->
            CASE n <= 4 -> [j \in 1..NC |-> ""]
              [] n = 5 -> LET p == PolyOf(hh) IN IF Irreducible(p) /\ PrimitivePoly(p) /\ SquareFree(p) THEN Keep("reset;" \o FieldCmds(p)) ELSE <<>>
              [] OTHER -> <<>>
      [] Family = "step" ->
            CASE n <= 4 -> [j \in 1..(IF Deep THEN NC ELSE 4) |-> ""]
              [] n = 5 -> LET p == PolyOf(hh) IN IF Irreducible(p) /\ PrimitivePoly(p) /\ SquareFree(p) THEN Keep(StepCmds(p)) ELSE <<>>
              [] OTHER -> <<>>
      [] Family = "coerce" ->
            CASE n = 1 -> << "reset;c_mk k0 v:-2,0,1 s:x b:90,-6,1,-3 #64;c_mk k1 v:-1,-1,0,1 s:x b:85,-6,1,-3 #64;c_mk k2 v:-2,3 s:x b:43,-6,1,-3 #64",
                             "reset;c_mk k0 v:-2,0,1 s:x b:90,-6,1,-3 #64;c_mk k1 v:-2,0,1 s:x b:-90,-6,1,-3 #64;mkq k2",
                             "reset;c_mk k0 v:-2,0,1 s:x b:90,-6,1,-3 #64;c_mk k1 v:-2,0,1 s:y b:90,-6,1,-3 #64;mkq k2" >>
              [] n = 2 -> [j \in 1..Len(Kinds) |-> Sub(Kinds[j], "r0", 1)]
              [] n = 3 -> [j \in 1..Len(Kinds) |-> Sub(Kinds[j], "r1", 1)]
              [] n = 4 -> Keep(CoerceCmds)
              [] OTHER -> <<>>
      [] Family = "convert" ->
            CASE n = 1 -> [j \in 1..4 |-> "reset;" \o Flds[j + 1]]
              [] n = 2 -> [j \in 1..Len(CppNumbers) |-> NumCmds(CppNumbers[j])] \o [j \in 1..Len(CNumbers) |-> CNumCmds(CNumbers[j])] \o [j \in 1..Len(VecTypes) |-> "newv r0 k0 " \o VecTypes[j] \o " v:;parts r0"]
              [] n = 3 -> IF hh[2] <= Len(CppNumbers) + Len(CNumbers) THEN Keep("")
                          ELSE LET t == VecTypes[hh[2] - Len(CppNumbers) - Len(CNumbers)] c == VecCoef(t) d == Degs[hh[1] + 1] IN
                               [j \in 1..(3 * 3) |-> LET a == c[((j - 1) \div 3) + 1] b == c[((j - 1) % 3) + 1] v == IF d = 1 THEN a ELSE a \o "," \o b
                                                     IN "newv r0 k0 " \o t \o " v:" \o v \o ";parts r0;hash r0;newe r1 k0 r0;inp + r1 int:0;hash r1;floor r0;strrt r1 r0 #1;depr r0 #3"]
              [] OTHER -> <<>>
      [] Family = "archive" ->
            CASE n = 1 -> [j \in 1..4 |-> "reset;" \o Saved]
              [] n = 2 -> [j \in 1..Len(Items) |-> "save #0 " \o Formats[hh[1]] \o " " \o Items[j]]
              [] n = 3 -> << "" >> \o [j \in 1..Len(Items) |-> " " \o Items[j]]
              [] n = 4 -> IF hh[3] = 1 \/ ~Deep THEN << "" >> ELSE << "" >> \o [j \in 1..Len(Items) |-> " " \o Items[j]]
              [] n = 5 -> [j \in 1..Len(Meanwhile) |-> ";" \o Meanwhile[j] \o ";load #0 " \o Formats[hh[1]]]
              [] n = 6 -> LET it == << Items[hh[2]] >> \o (IF hh[3] = 1 THEN <<>> ELSE << Items[hh[3] - 1] >>) \o (IF hh[4] = 1 THEN <<>> ELSE << Items[hh[4] - 1] >>)
                          IN [a \in 1..2 |-> " " \o Cat([j \in 1..Len(it) |-> Dest(it[j], j, a = 2)], " ")]
              [] OTHER -> <<>>
\* letters that continue a command start with what is missing
Glue == CASE Family \in {"text", "stream", "archive"} -> "" [] OTHER -> ";"

Init == h = <<>> /\ text = ""
Next == LET cs == Choices(h) IN \E j \in 1..Len(cs) : LET c == cs[j] IN
            /\ h' = Append(h, j)
            /\ text' = IF text = "" THEN c ELSE IF c = "" THEN text ELSE text \o (IF Family = "stream" /\ Len(h) = 1 THEN ";" ELSE IF Family = "archive" /\ Len(h) = 1 THEN ";" ELSE Glue) \o c
vars == << h, text >>
Spec == Init /\ [][Next]_vars
\* programs that are complete
Log == Choices(h') = <<>> /\ (Family \in {"field", "step"} => Len(h') = 5) => CSVWrite("%1$s", << text' >>, IOEnv.LOG)
=============================================================================
