------------------------------ MODULE NamesTrace ------------------------------
(***************************************************************************)
(* Recorded conversions and the files they created.  A case is a history:  *)
(*   steps  Seq of [input, given ("" if none), ext, only, limit, outs,     *)
(*          cls (by a converter object), raised, reports, reported,        *)
(*          created, lost]                                                 *)
(* created: the files that are new or have changed, lost: those gone.      *)
(***************************************************************************)
EXTENDS Names, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad
vars == <<c, k, bad>>
Init == c \in DOMAIN Cases /\ k = 1 /\ bad = {}
Rng(q) == {q[j] : j \in DOMAIN q}

Judge(st) ==
  LET refused == ~st.cls /\ st.given = "" /\ DefaultRefused(st.input, st.ext)
      base == IF st.given # "" THEN st.given ELSE IF st.cls THEN ClassDefault(st.input) ELSE WithExt(st.input, st.ext)
      want == Expected(base, st.outs, IF st.only THEN 0 ELSE st.limit)
      made == IF st.only THEN {} ELSE Rng(want)
  IN (IF st.lost # << >> THEN {"files removed"} ELSE {})
     \cup (IF st.input \in Rng(st.created) /\ st.input # st.given THEN {"input written over"} ELSE {})
     \cup (IF refused # st.raised THEN {IF refused THEN "default name is the input" ELSE "conversion refused"} ELSE {})
     \cup (IF st.raised THEN (IF st.created = << >> THEN {} ELSE {"files created by a refused conversion"})
           ELSE (IF st.reports /\ st.reported # want THEN {"names reported: expected " \o ToString(want)} ELSE {})
             \cup (IF ~Distinct(st.reported) THEN {"a name is reported twice"} ELSE {})
             \cup (IF Rng(st.created) # made THEN {"files created: expected " \o ToString(made)} ELSE {}))
Step == /\ k <= Len(Cases[c].steps)
        /\ bad' = bad \cup {"step " \o ToString(k) \o ": " \o x : x \in Judge(Cases[c].steps[k])}
        /\ k' = k + 1 /\ UNCHANGED c
Done == /\ k = Len(Cases[c].steps) + 1
        /\ k' = k + 1
        /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad]))
        /\ UNCHANGED <<c, bad>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
