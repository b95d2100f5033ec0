-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* The metadata queries of an open file.  NAFormat reads the file; Answer  *)
(* says what each query must return, including how a name is split into    *)
(* name and units.                                                         *)
(***************************************************************************)
EXTENDS NAFormat, NameSplit, Json, IOUtils

\* a user's callback, as a table of what it returns
Split(cs, s) ==
  CASE cs.rule = "brackets" -> SplitName(s, cs.lb, cs.rb)
    [] cs.rule = "callback" -> LET t == cs.table[s] IN <<Strip(t[1]), t[2]>>

Elem(st, list, k) == list[k]
NameOf(st, what, k) ==
  CASE what = "V" -> st.names["VNAME"][k]
    [] what = "A" -> st.names["ANAME"][k]
    [] what = "X" -> Rev(st.names["XNAME"])[k]

NNum(st) == st.nauxv - st.nauxc
Entry(cs, st, what, k) ==
  CASE what = "X" -> Split(cs, NameOf(st, "X", k))
    [] what = "V" -> Split(cs, NameOf(st, "V", k)) \o <<st.nums["VMISS"][k], st.nums["VSCAL"][k]>>
    [] what = "A" -> Split(cs, NameOf(st, "A", k)) \o
                     <<(st.nums["AMISS"] \o st.names["AMISSC"])[k],
                       IF k <= NNum(st) THEN st.nums["ASCAL"][k] ELSE "none">>
Count(st, what) == CASE what = "X" -> NIVof(st.ffi) [] what = "V" -> st.nv
                     [] what = "A" -> IF HasAux(st) THEN st.nauxv ELSE 0

Answer(cs, st, q) ==
  CASE q.q = "getVariable"             -> FlatList(Entry(cs, st, "V", q.k))
    [] q.q = "getAuxVariable"          -> FlatList(Entry(cs, st, "A", q.k))
    [] q.q = "getIndependentVariable"  -> FlatList(Entry(cs, st, "X", q.k))
    [] q.q = "getVariables"            -> FlatOf([k \in 1..Count(st, "V") |-> FlatList(Entry(cs, st, "V", k))])
    [] q.q = "getAuxVariables"         -> FlatOf([k \in 1..Count(st, "A") |-> FlatList(Entry(cs, st, "A", k))])
    [] q.q = "getIndependentVariables" -> FlatOf([k \in 1..Count(st, "X") |-> FlatList(Entry(cs, st, "X", k))])
    [] q.q = "getMissingValue"         -> <<st.nums["VMISS"][q.k]>>
    [] q.q = "getScaleFactor"          -> <<st.nums["VSCAL"][q.k]>>
    [] q.q = "getAuxMissingValue"      -> <<(st.nums["AMISS"] \o st.names["AMISSC"])[q.k]>>
    [] q.q = "getAuxScaleFactor"       -> <<st.nums["ASCAL"][q.k]>>
    [] q.q = "getNumHeaderLines"       -> <<ToString(st.nhead)>>
    [] q.q = "getFFI"                  -> <<ToString(st.ffi)>>
    [] q.q = "getOriginator"           -> <<st.text["ONAME"]>>
    [] q.q \in {"getOrganisation", "getOrg"} -> <<st.text["ORG"]>>
    [] q.q = "getSource"               -> <<st.text["SNAME"]>>
    [] q.q = "getMission"              -> <<st.text["MNAME"]>>
    [] q.q = "getVolumes"              -> FlatList(st.nums["VOLS"])
    [] q.q = "getFileDates"            -> FlatOf(<<Field(st, "DATE"), Field(st, "RDATE")>>)
    [] q.q = "getNormalComments"       -> FlatList(st.names["NCOM"])
    [] q.q = "getSpecialComments"      -> FlatList(st.names["SCOM"])
    [] q.q = "item"                    -> IF q.f = "XALL" THEN << >> ELSE Field(st, q.f)

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, st, bad
vars == <<c, k, st, bad>>
Lines == Cases[c].lines
Init == c \in DOMAIN Cases /\ k = 0 /\ st = InitState(Cases[c].skip) /\ bad = {}
Reads == /\ k < Len(Lines) /\ st' = Step(st, Lines[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<c, bad>>
Asks  == /\ k = Len(Lines) /\ k' = k + 1 /\ UNCHANGED <<c, st>>
         /\ bad' = IF st.err # "" THEN {"not a well-formed file: " \o st.err}
                   ELSE {Cases[c].queries[j].q \o "(" \o ToString(Cases[c].queries[j].k) \o ")" :
                           j \in {i \in DOMAIN Cases[c].queries :
                                    Answer(Cases[c], st, Cases[c].queries[i]) # Cases[c].queries[i].a}}
         /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad']))
Next == Reads \/ Asks
Spec == Init /\ [][Next]_vars
=============================================================================
