------------------------------ MODULE NameSplit ------------------------------
(***************************************************************************)
(* Splitting a name into name and units: with brackets lb, rb (a single    *)
(* character each, by default the parentheses), the units are what the     *)
(* last bracketed group holds, the name what stands before and after it,   *)
(* joined by a blank.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSetsExt

Ch(s, k) == SubSeq(s, k, k)
RECURSIVE LStrip(_)
LStrip(s) == IF Len(s) > 0 /\ Ch(s, 1) = " " THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))

\* openings with a closing bracket after at least one character
Openings(s, lb, rb) == {p \in 1..Len(s) : Ch(s, p) = lb /\ \E q \in (p + 2)..Len(s) : Ch(s, q) = rb}
SplitName(s, lb, rb) ==
  IF Openings(s, lb, rb) = {} THEN <<Strip(s), "none">>
  ELSE LET p == Max(Openings(s, lb, rb))
           q == Min({k \in (p + 2)..Len(s) : Ch(s, k) = rb})
       IN <<Strip(SubSeq(s, 1, p - 1) \o " " \o SubSeq(s, q + 1, Len(s))),
            SubSeq(s, p + 1, q - 1)>>
=============================================================================
