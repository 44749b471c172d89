----------------------------- MODULE Lifecycle -----------------------------
(* Who refers to which field: handles k and element variables r of a program, *)
(* the fields A, B and the rationals Q. One action per way of the interface   *)
(* to create, copy, move, exchange, convert, combine and destroy them.        *)
(*                                                                           *)
(* TLC explores all states, checks the invariants, and writes every           *)
(* transition (state, call, state) to the file LOG; walks that cover all      *)
(* transitions are executed in the real code, where EAntic.tla judges every   *)
(* step and the event "expect" compares the state with the one reached here.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils

CONSTANTS NR, NK
VARIABLES r,      \* register: "-" no object, "M" moved from, <<field, rational?>>
          k,      \* handle: "-" or a field
          refs,   \* number of references to each field that the program holds
          call    \* the call that led here (not part of the state)
Fields == {"A", "B", "Q"}
Regs == 0..(NR - 1)
Hs   == 0..(NK - 1)
Elems == {i \in Regs : r[i] \notin {<<"-">>, <<"M">>}}
None == <<"-">>
Moved == <<"M">>
Fld(x) == IF Len(x) = 2 THEN x[1] ELSE "-"
Rat(x) == x[2]

Count(rr, kk) == [f \in Fields |-> Cardinality({i \in Regs : Fld(rr[i]) = f}) + Cardinality({i \in Hs : kk[i] = f})]
Init == r = [i \in Regs |-> None] /\ k = [i \in Hs |-> "-"] /\ refs = Count(r, k) /\ call = "reset"

RR(i) == "r" \o ToString(i)
KK(i) == "k" \o ToString(i)
\* references are counted where they are taken and released, not recomputed
Take(rf, f)  == IF f = "-" THEN rf ELSE [rf EXCEPT ![f] = @ + 1]
Give(rf, f)  == IF f = "-" THEN rf ELSE [rf EXCEPT ![f] = @ - 1]
SetR(i, x, c) == /\ r' = [r EXCEPT ![i] = x] /\ refs' = Give(Take(refs, Fld(x)), Fld(r[i])) /\ k' = k /\ call' = c
SetK(i, f, c) == /\ k' = [k EXCEPT ![i] = f] /\ refs' = Give(Take(refs, f), k[i]) /\ r' = r /\ call' = c
Same(c) == UNCHANGED <<r, k, refs>> /\ call' = c      \* the call fails

\* a binary operation that does not change whether the result is rational in an unknown way:
\* a + b, where the non-rational elements are the generator plus an integer
Common(a, b) == IF Fld(a) = Fld(b) THEN Fld(a) ELSE IF Rat(b) THEN Fld(a) ELSE IF Rat(a) THEN Fld(b) ELSE "-"
Keeps(a, b) == \/ Rat(a) \/ Rat(b)      \* the sum is rational iff both are

Next ==
    \/ \E h \in Hs, f \in {"A", "B"} : SetK(h, f, "make" \o f \o " " \o KK(h))
    \/ \E h \in Hs : SetK(h, "Q", "mkq " \o KK(h))
    \/ \E h \in Hs : k[h] # "-" /\ SetK(h, "-", "dropk " \o KK(h))
    \/ \E h, g \in Hs : k[g] # "-" /\ SetK(h, k[g], "mkh " \o KK(h) \o " " \o KK(g))
    \/ \E h, g \in Hs :
                        /\ k[g] # "-" /\ h # g
                        /\ k' = [k EXCEPT ![h] = k[g], ![g] = "-"] /\ refs' = Give(refs, k[h]) /\ r' = r
                        /\ call' = "mkmv " \o KK(h) \o " " \o KK(g)
    \/ \E h \in Hs, i \in Elems : SetK(h, Fld(r[i]), "mkp " \o KK(h) \o " " \o RR(i))
    \* elements from fields, numbers and nothing
    \/ \E i \in Regs, h \in Hs : k[h] # "-" /\ SetR(i, <<k[h], k[h] = "Q">>, "gen " \o RR(i) \o " " \o KK(h))
    \/ \E i \in Regs, h \in Hs : k[h] # "-" /\ \E c \in {"new", "zero", "one"} : SetR(i, <<k[h], TRUE>>, c \o " " \o RR(i) \o " " \o KK(h))
    \/ \E i \in Regs, h \in Hs : k[h] # "-" /\ SetR(i, <<k[h], TRUE>>, "newn " \o RR(i) \o " " \o KK(h) \o " int:7")
    \/ \E i \in Regs : SetR(i, <<"Q", TRUE>>, "newd " \o RR(i))
    \/ \E i \in Regs : r[i] # None /\ SetR(i, <<"Q", TRUE>>, "asgn " \o RR(i) \o " mpq:1/3")
    \* copies, moves, exchange
    \/ \E i \in Regs, j \in Elems : i # j /\ SetR(i, r[j], "newc " \o RR(i) \o " " \o RR(j))
    \/ \E i \in Regs, j \in Elems : r[i] # None /\ SetR(i, r[j], "asg " \o RR(i) \o " " \o RR(j))
    \/ \E i \in Regs, j \in Elems, c \in {"newm", "asgm"} :
                        /\ i # j /\ (c = "asgm" => r[i] # None)
                        /\ r' = [r EXCEPT ![i] = r[j], ![j] = Moved] /\ refs' = Give(refs, Fld(r[i])) /\ k' = k
                        /\ call' = c \o " " \o RR(i) \o " " \o RR(j)
    \/ \E i, j \in Regs, c \in {"swap", "stdswap"} :
                        /\ i <= j /\ r[i] # None /\ r[j] # None /\ (c = "stdswap" => i # j)
                        /\ r' = [r EXCEPT ![i] = r[j], ![j] = r[i]] /\ UNCHANGED <<k, refs>>
                        /\ call' = c \o " " \o RR(i) \o " " \o RR(j)
    \/ \E i \in Regs : r[i] # None /\ SetR(i, None, "drop " \o RR(i))
    \* conversion to a field
    \/ \E i \in Regs, h \in Hs, j \in Elems : k[h] # "-" /\ LET c == "newe " \o RR(i) \o " " \o KK(h) \o " " \o RR(j) IN
                        IF Fld(r[j]) = k[h] \/ Rat(r[j]) THEN SetR(i, <<k[h], Rat(r[j])>>, c) ELSE Same(c)
    \* arithmetic
    \/ \E i \in Regs, a, b \in Elems : LET c == "bin + " \o RR(i) \o " " \o RR(a) \o " " \o RR(b)  f == Common(r[a], r[b]) IN
                        IF f = "-" THEN Same(c) ELSE Keeps(r[a], r[b]) /\ SetR(i, <<f, Rat(r[a]) /\ Rat(r[b])>>, c)
    \/ \E i \in Regs, a \in Elems : \E n \in {"int:5", "mpz:1267650600228229401496703205376"} : SetR(i, r[a], "bin - " \o RR(i) \o " " \o RR(a) \o " " \o n)
    \/ \E a, b \in Elems : LET c == "inp - " \o RR(a) \o " " \o RR(b)  f == Common(r[a], r[b]) IN
                        IF f = "-" THEN Same(c) ELSE Keeps(r[a], r[b]) /\ SetR(a, <<f, Rat(r[a]) /\ Rat(r[b])>>, c)
    \/ \E i \in Regs, a \in Elems : SetR(i, <<Fld(r[a]), TRUE>>, "pow " \o RR(i) \o " " \o RR(a) \o " #0")
    \/ \E i \in Regs, a \in Elems : SetR(i, r[a], "neg " \o RR(i) \o " " \o RR(a))
    \/ \E a \in Elems : SetR(a, r[a], "inp * " \o RR(a) \o " mpq:-1/2")
    \* comparison of elements that may not be comparable
    \/ \E a, b \in Elems : Same("rel < " \o RR(a) \o " " \o RR(b))
    \/ \E a, b \in Elems : Same("rel == " \o RR(a) \o " " \o RR(b))
vars == <<r, k, refs, call>>
View == <<r, k, refs>>
Spec == Init /\ [][Next]_vars

\* the counters agree with who refers to what, and a field is dead exactly when nobody does
CountOK == refs = Count(r, k)
Dead(f) == refs[f] = 0
NobodyDangles == \A f \in Fields : Dead(f) => (\A i \in Regs : Fld(r[i]) # f) /\ (\A i \in Hs : k[i] # f)

Show(x) == IF Len(x) = 1 THEN x[1] ELSE IF x[1] = "Q" THEN "Q" ELSE x[1] \o (IF x[2] THEN "q" ELSE "i")
RECURSIVE Join(_, _)
Join(f, i) == IF i = 0 THEN f[0] ELSE Join(f, i - 1) \o " " \o f[i]
Key(rr, kk) == Join([i \in Regs |-> Show(rr[i])], NR - 1) \o " " \o Join(kk, NK - 1)
Log == CSVWrite("%1$s|%2$s|%3$s", <<Key(r, k), call', Key(r', k')>>, IOEnv.LOG)
=============================================================================
