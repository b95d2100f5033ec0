---------------------------- MODULE FFISelectMC -----------------------------
(***************************************************************************)
(* Every small structure: the choice exists and is unambiguous, and each   *)
(* structure is exported, to be built and given to nappy.chooseFFI.        *)
(***************************************************************************)
EXTENDS FFISelect, Json

Plain(niv, naux, nvpm) == [niv |-> niv, char |-> FALSE, per |-> FALSE, lens |-> << >>, nx |-> << >>,
                           start |-> << >>, naux |-> naux, nvpm |-> nvpm]
PerMark(c, a, l, x, st) == [niv |-> 2, char |-> c, per |-> TRUE, lens |-> l, nx |-> x, start |-> st,
                            naux |-> a, nvpm |-> FALSE]

VARIABLE s
Init == /\ \/ \E niv \in 0..5, naux \in -1..3, nvpm \in BOOLEAN : s = Plain(niv, naux, nvpm)
           \/ \E n \in 1..3 : \E c \in BOOLEAN, a \in 1..4, x \in [1..n -> 0..2], st \in [1..n -> BOOLEAN] :
                \E l \in {x, [m \in 1..n |-> 1]} : s = PerMark(c, a, l, x, st)
        /\ Legal(s) \/ (s.niv \in {0, 5} /\ ~s.nvpm)
        /\ PrintT("EXPORT " \o ToJson([s |-> s, legal |-> Legal(s)]))
Next == UNCHANGED s
Exists    == Legal(s) => ~Refused(s)
Unique    == Cardinality(Fitting(s)) <= 1 \/ Fitting(s) = {2110, 2310}
Outside   == s.niv \notin 1..4 => Refused(s)
=============================================================================
