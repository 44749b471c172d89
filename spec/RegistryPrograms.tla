-------------------------- MODULE RegistryPrograms --------------------------
(* Enumerates the programs of the threads whose schedules drv/mt explores:   *)
(* all combinations of sequences of calls that make sense (a handle is there  *)
(* before it is copied, used, dropped or turned into an element), up to       *)
(* exchanging threads and fields.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen,     \* calls of each of two threads
          MaxLen3,    \* calls of each of three threads
          MaxTotal

Calls == {"A", "B", "c", "d", "u", "e", "q"}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET S == Seqs(n - 1) IN S \cup {Append(s, x) : s \in S, x \in Calls \cup {"s"}}
Starts(s) == \A i \in 1..Len(s) : s[i] = "s" => i = 1     \* handles from the start come first
RECURSIVE Handles(_, _)
Handles(s, i) == IF i = 0 THEN 0
                 ELSE LET n == Handles(s, i - 1) IN
                      IF n < 0 THEN n
                      ELSE CASE s[i] \in {"A", "B", "s"} -> n + 1
                             [] s[i] = "c" -> IF n > 0 THEN n + 1 ELSE -1
                             [] s[i] = "d" -> IF n > 0 THEN n - 1 ELSE -1
                             [] s[i] \in {"u", "e"} -> IF n > 0 THEN n ELSE -1
                             [] OTHER -> n
Calls1(s) == Cardinality({i \in 1..Len(s) : s[i] # "s"})
\* what remains is dropped at the end anyway; e twice in a row changes nothing
Sensible(s) == /\ Starts(s) /\ Handles(s, Len(s)) >= 0
               /\ Len(s) > 0
               /\ (Len(s) > 1 => s[Len(s)] # "d" \/ s[1] = "s")
               /\ \A i \in 1..Len(s) - 1 : ~(s[i] = "e" /\ s[i + 1] = "e") /\ ~(s[i] = "u" /\ s[i + 1] = "u")
One(n) == {s \in Seqs(n + 1) : Sensible(s) /\ Calls1(s) <= n}
Uses(s, x) == \E i \in 1..Len(s) : s[i] = x
\* a fixed order of sequences, to count each combination once
Code(x) == CASE x = "A" -> 1 [] x = "B" -> 2 [] x = "c" -> 3 [] x = "d" -> 4 [] x = "e" -> 5 [] x = "q" -> 6 [] x = "s" -> 7 [] OTHER -> 8
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE 9 * Num(SubSeq(s, 1, Len(s) - 1)) + Code(s[Len(s)])
\* B only next to an A (or a handle to A), and not first
Interesting(P) == /\ \E i \in DOMAIN P : Uses(P[i], "A") \/ Uses(P[i], "s") \/ Uses(P[i], "q")
                  /\ (\E i \in DOMAIN P : Uses(P[i], "B")) => \E i \in DOMAIN P : Uses(P[i], "A") \/ Uses(P[i], "s")
RECURSIVE Length(_)
Length(P) == IF P = <<>> THEN 0 ELSE Calls1(P[1]) + Length(Tail(P))
Pairs == {<<p, q>> \in One(MaxLen) \X One(MaxLen) : Num(p) <= Num(q)}
Triples == IF MaxLen3 = 0 THEN {} ELSE {<<p, q, r>> \in One(MaxLen3) \X One(MaxLen3) \X One(MaxLen3) : Num(p) <= Num(q) /\ Num(q) <= Num(r)}
Programs == {P \in Pairs \cup Triples : Interesting(P) /\ Length(P) <= MaxTotal}
ASSUME \A P \in Programs : PrintT(<<"PROGRAM", P>>)
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
