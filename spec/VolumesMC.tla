------------------------------ MODULE VolumesMC ------------------------------
(* The volumes of every small set of outputs partition their rows in order. *)
EXTENDS Volumes, Json
CONSTANTS MaxOuts, MaxRows, MaxLimit
Outs == UNION {[1..n -> [ffi : {1001, 1010, 2010}, n : 0..MaxRows]] : n \in 1..MaxOuts}
VARIABLES outs, limit, o, r, v, files
vars == <<outs, limit, o, r, v, files>>
Init == /\ limit \in 0..MaxLimit
        /\ outs \in {[k \in DOMAIN s |-> [ffi |-> s[k].ffi, head |-> << >>,
                        rows |-> [j \in 1..s[k].n |-> <<k, j>>]]] : s \in Outs}
        /\ o = 1 /\ r = 0 /\ v = 0 /\ files = << >>
Next == /\ o <= Len(outs)
        /\ files' = Append(files, NextFile(outs, o, r, v, limit))
        /\ LET a == Advance(outs, o, r, v, limit) IN o' = a[1] /\ r' = a[2] /\ v' = a[3]
        /\ UNCHANGED <<outs, limit>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Rows(_)
Rows(fs) == IF fs = << >> THEN << >> ELSE fs[1].rows \o Rows(Tail(fs))
RECURSIVE AllRows(_)
AllRows(os) == IF os = << >> THEN << >> ELSE os[1].rows \o AllRows(Tail(os))
Of(k) == SelectSeq(files, LAMBDA f : f.o = k)
Finished == o > Len(outs)
Partition == Finished => Rows(files) = AllRows(outs)
Prefix == \A k \in DOMAIN outs : k < o => Rows(Of(k)) = outs[k].rows
FullButLast == \A k \in DOMAIN outs : k < o /\ Splits(outs[k], limit) =>
   LET fs == Of(k) IN /\ \A j \in 1..(Len(fs) - 1) : Len(fs[j].rows) = limit
                      /\ Len(fs[Len(fs)].rows) \in 1..limit
Numbered == \A k \in DOMAIN outs : k < o =>
   LET fs == Of(k) IN \A j \in DOMAIN fs : fs[j].ivol = j /\ fs[j].nvol = Len(fs)
Whole == \A k \in DOMAIN outs : k < o /\ ~Splits(outs[k], limit) => Len(Of(k)) = 1
Same == Finished => files = Plan(outs, 1, 0, 0, limit)
Ends == <>Finished
=============================================================================
