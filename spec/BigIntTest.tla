----------------------------- MODULE BigIntTest -----------------------------
(* Compares the Java evaluation of BigInt (used by TLC for all the other     *)
(* modules) with the definitions in BigInt.tla, renamed apart in BigIntDef   *)
(* (a verbatim copy made by the harness, which Java does not override).      *)
EXTENDS BigInt
D == INSTANCE BigIntDef
Z == {"0", "1", "-1", "2", "-3", "7", "-8", "12", "-20"}
N == {"1", "2", "3", "5", "8"}
Pols == { <<>>, <<"1">>, <<"-3">>, <<"-2", "0", "1">>, <<"1", "-1", "2">>,
          <<"0", "3", "0", "-2">>, <<"-1", "-1", "0", "1">>, <<"5", "2", "-4", "1", "3">> }
NZPols == Pols \ {<<>>}
ASSUME \A a, b \in Z : /\ BAdd(a, b) = D!BAdd(a, b) /\ BSub(a, b) = D!BSub(a, b)
                       /\ BMul(a, b) = D!BMul(a, b) /\ BCmp(a, b) = D!BCmp(a, b)
                       /\ BGcd(a, b) = D!BGcd(a, b)
                       /\ b # "0" => BFDiv(a, b) = D!BFDiv(a, b)
ASSUME \A a \in Z : /\ BNeg(a) = D!BNeg(a) /\ BAbs(a) = D!BAbs(a) /\ BSgn(a) = D!BSgn(a)
                    /\ BBits(a) = D!BBits(a)
                    /\ \A k \in 0..4 : BPow(a, k) = D!BPow(a, k)
                    /\ \A k \in -3..4 : BShift(a, k) = D!BShift(a, k)
                    /\ FromInt(ToInt(a)) = a
ASSUME \A p \in Pols : /\ PolyContent(p) = D!PolyContent(p)
                       /\ PolyTrim(p \o <<"0", "0">>) = D!PolyTrim(p \o <<"0", "0">>)
                       /\ \A q \in Pols : /\ PolyMulZ(p, q) = D!PolyMulZ(p, q)
                                          /\ \A a, b \in {"0", "1", "-3", "7"} : PolyLin(p, a, q, b) = D!PolyLin(p, a, q, b)
                       /\ \A q \in NZPols : PolyPRem(p, q) = D!PolyPRem(p, q)
                       /\ \A r \in {"0", "1", "-5", "11"} :
                            /\ \A d \in N : PolyAtRat(p, r, d) = D!PolyAtRat(p, r, d)
                            /\ \A k \in 0..3 : /\ PolyAtDyadic(p, r, k) = D!PolyAtDyadic(p, r, k)
                                               /\ PolyRange(p, r, k) = D!PolyRange(p, r, k)
ASSUME PolyDivZ(<<"4", "-6", "0">>, "2") = D!PolyDivZ(<<"4", "-6", "0">>, "2")
\* sqrt(2), -sqrt(2), the root of x^3-x-1: floors of 2^k*alpha
ASSUME \A k \in 0..9 : /\ RootFloor(<<"-2", "0", "1">>, "1", "2", 0, k) = D!RootFloor(<<"-2", "0", "1">>, "1", "2", 0, k)
                       /\ RootFloor(<<"-2", "0", "1">>, "-4", "0", 1, k) = D!RootFloor(<<"-2", "0", "1">>, "-4", "0", 1, k)
                       /\ RootFloor(<<"-1", "-1", "0", "1">>, "1", "3", 1, k) = D!RootFloor(<<"-1", "-1", "0", "1">>, "1", "3", 1, k)
\* beyond 32 bits: checked against identities
Big == "123456789012345678901234567890"
ASSUME /\ BMul(Big, "1000000007") = BAdd(BShift(Big, 0), BMul(Big, "1000000006"))
       /\ BSub(BMul(BFDiv(Big, "97531"), "97531"), Big) = BNeg(BSub(Big, BMul(BFDiv(Big, "97531"), "97531")))
       /\ BFDiv(BMul(Big, "97531"), "97531") = Big
       /\ BFDiv(BSub(BMul(Big, "-97531"), "1"), "97531") = BSub(BNeg(Big), "1")
=============================================================================
