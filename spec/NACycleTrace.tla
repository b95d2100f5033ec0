---------------------------- MODULE NACycleTrace ----------------------------
(***************************************************************************)
(* Recorded conversions to NetCDF and back.  A case:                       *)
(*   lines    the source        back   Seq of the files that came back     *)
(*   raised   whether a conversion raised an error   times (see NACycle)   *)
(***************************************************************************)
EXTENDS NACycle, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, sts, bad
vars == <<c, k, sts, bad>>
Init == c \in DOMAIN Cases /\ k = 0 /\ sts = << >> /\ bad = {}
Reads == /\ k <= Len(Cases[c].back)
         /\ sts' = Append(sts, Read(0, IF k = 0 THEN Cases[c].lines ELSE Cases[c].back[k]))
         /\ k' = k + 1 /\ UNCHANGED <<c, bad>>
Judges ==
  /\ k = Len(Cases[c].back) + 1
  /\ k' = k + 1
  /\ bad' = (IF sts[1].err # "" THEN {"the source is not well-formed: " \o sts[1].err}
             ELSE IF Cases[c].raised THEN {"conversion refused"}
             ELSE IF Len(sts) # 2 THEN {"not one file but " \o ToString(Len(sts) - 1)}
             ELSE IF sts[2].err # "" THEN {"what came back is not well-formed: " \o sts[2].err}
             ELSE Cycled(sts[1], sts[2], Cases[c].times))
  /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad']))
  /\ UNCHANGED <<c, sts>>
Next == Reads \/ Judges
Spec == Init /\ [][Next]_vars
=============================================================================
