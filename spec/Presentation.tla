---------------------------- MODULE Presentation ----------------------------
(***************************************************************************)
(* What the presentation options of write() may do to a file: delimiter,   *)
(* annotation column, header suppression.  A file is a sequence of lines,  *)
(* a line a sequence of items (its text split at the delimiters involved). *)
(* Expected(base, nhead, o) is the file the options o turn base into; an   *)
(* annotated line has one extra leading item, whatever it says.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

RECURSIVE Trim(_)                       \* without trailing empty items
Trim(s) == IF Len(s) > 0 /\ s[Len(s)] = "" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Section(base, nhead, noheader) == IF noheader THEN SubSeq(base, nhead + 1, Len(base)) ELSE base

LineOK(want, got, annotated) ==
  IF annotated THEN /\ Len(got) >= 1 /\ got[1] # "" /\ Trim(Tail(got)) = Trim(want)
  ELSE Trim(got) = Trim(want)

\* ------------------------------------------------------------------- checking
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad
vars == <<c, k, bad>>

Want(cs) == Section(cs.base, cs.nhead, cs.noheader)
Init == c \in DOMAIN Cases /\ k = 0 /\ bad = {}

\* the header and the data section differ in what they are annotated with
Compares ==
  /\ k < Len(Want(Cases[c])) /\ k < Len(Cases[c].got)
  /\ k' = k + 1
  /\ bad' = IF LineOK(Want(Cases[c])[k + 1], Cases[c].got[k + 1], Cases[c].annotated)
            THEN bad ELSE bad \cup {"line " \o ToString(k + 1)}
  /\ UNCHANGED c
Ends ==
  /\ ~(k < Len(Want(Cases[c])) /\ k < Len(Cases[c].got))
  /\ k # Len(Want(Cases[c])) + Len(Cases[c].got) + 1
  /\ k' = Len(Want(Cases[c])) + Len(Cases[c].got) + 1
  /\ bad' = bad \cup (IF Len(Want(Cases[c])) # Len(Cases[c].got) THEN {"number of lines"} ELSE {})
                \cup (IF Cases[c].same THEN {} ELSE {"CSV conversion differs from writing with commas"})
  /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad']))
  /\ UNCHANGED c
Next == Compares \/ Ends
Spec == Init /\ [][Next]_vars
=============================================================================
