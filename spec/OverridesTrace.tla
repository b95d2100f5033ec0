---------------------------- MODULE OverridesTrace ----------------------------
(***************************************************************************)
(* Recorded histories of conversions with overrides in one process.        *)
(*   conf    the configured overrides                                      *)
(*   bases   for each source (and its options), the files of a conversion  *)
(*           without any override in a fresh process                       *)
(*   events  Seq of [src, given, raised, files, today]                     *)
(* The overrides that hold for a conversion are a function of conf and its *)
(* own ones: nothing is left over from earlier conversions.                *)
(***************************************************************************)
EXTENDS Overrides, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, held, bad
vars == <<c, k, held, bad>>

Init == c \in DOMAIN Cases /\ k = 0 /\ bad = {} /\ held = Cases[c].conf

\* the revision date is the day of the conversion, which may change on the way
OneOf(days, out) == Field(out, "RDATE") \in {FlatList(days[j]) : j \in DOMAIN days}
FileBad(base, out, ov, days) ==
  IF base.err # "" THEN {"file without overrides is malformed: " \o base.err}
  ELSE IF out.err # "" THEN {"malformed: " \o out.err}
  ELSE LET W == Wrong(base, out, ov)
       IN IF "RDATE" \in W /\ "RDATE" \notin DOMAIN ov /\ OneOf(days, out) THEN W \ {"RDATE"} ELSE W

Judged(cs, e) ==
  LET base == cs.bases[e.src]
      ov == Over(held, e.given)
  IN IF e.raised THEN {"refused"}
     ELSE IF Len(e.files) # Len(base) THEN {"number of files"}
     ELSE UNION {FileBad(Read(0, base[j]), Read(0, e.files[j]), ov, e.today) : j \in DOMAIN base}

Converts ==
  /\ k < Len(Cases[c].events)
  /\ k' = k + 1
  /\ LET J == Judged(Cases[c], Cases[c].events[k + 1])
     IN bad' = bad \cup {"conversion " \o ToString(k + 1) \o ": " \o x : x \in J}
  /\ held' = held                    \* overrides given to a conversion are not kept
  /\ UNCHANGED c
Judges ==
  /\ k = Len(Cases[c].events)
  /\ k' = k + 1
  /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad]))
  /\ UNCHANGED <<c, held, bad>>
Next == Converts \/ Judges
Spec == Init /\ [][Next]_vars
=============================================================================
