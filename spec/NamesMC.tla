------------------------------- MODULE NamesMC -------------------------------
(* Every short path: the names derived from it, checked and exported.       *)
EXTENDS Names, Json
CONSTANTS MaxLen, Alphabet, Out
VARIABLES s
Init == s = ""
Next == /\ Len(s) < MaxLen
        /\ \E ch \in Alphabet : s' = s \o ch
Spec == Init /\ [][Next]_s

Rows(n) == [k \in 1..n |-> k]
Outs(n, m) == [k \in 1..n |-> [ffi |-> 1001, rows |-> Rows(m)]]
\* nothing leaves the directory of the input, and the input is not written over
Stays == \A ext \in {"na", "nc", "csv"} :
            /\ DirOf(WithExt(s, ext)) = DirOf(s)
            /\ Ext(s) # "." \o ext => ~DefaultRefused(s, ext)
Splits2 == Stem(s) \o Ext(s) = s /\ DirOf(Stem(s)) = DirOf(s)
AllDistinct == \A n \in 1..3 : \A m \in 1..3 : \A limit \in 0..2 :
            LET e == Expected(s, Outs(n, m), limit) IN
              /\ Distinct(e)
              /\ \A k \in DOMAIN e : DirOf(e[k]) = DirOf(s) /\ (Ext(s) # "" => Ext(e[k]) = Ext(s))
Export == Out => PrintT("EXPORT " \o ToJson([s |-> s, stem |-> Stem(s), ext |-> Ext(s),
                    na |-> WithExt(s, "na"), nc |-> WithExt(s, "nc"), csv |-> WithExt(s, "csv"),
                    two |-> [k \in 1..2 |-> OfOutput(s, 2, k)]]))
=============================================================================
