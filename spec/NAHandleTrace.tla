--------------------------- MODULE NAHandleTrace ----------------------------
(***************************************************************************)
(* Logs of programs run on nappy, checked against NAHandle.  Each case is  *)
(* a program: a sequence of events                                         *)
(*   op, h, p, d, o, m   the operation attempted                           *)
(*   ok                  whether nappy accepted it (no error)              *)
(*   files   path -> "none", "empty" or a digest of the bytes it holds     *)
(*   fields  of a read: field -> flat value returned                       *)
(*   wrote   of a write: the data set given, as the number format shows it *)
(*   dicts   data set -> digest of the dictionary the program holds        *)
(*   live    the paths for which the process has an open descriptor        *)
(***************************************************************************)
EXTENDS NAHandle, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
TPaths == {"p1", "p2"}
TData  == {}
TOpts  == {}
TBad   == {}
TReadable(o) == TRUE

VARIABLES c, k, seen, data, bad
vars == <<disk, handles, spoilt, c, k, seen, data, bad>>

Events == Cases[c].events

Init == /\ HInit
        /\ c \in DOMAIN Cases /\ k = 0
        /\ seen = << >>       \* <<data set, options>> -> digest of the file
        /\ data = << >>       \* <<data set, options>> -> what a read of it must return
        /\ bad = {}

Put(f, key, v) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN v ELSE f[x]]

\* the files observed are the ones the specification has; equal data and options
\* always give equal bytes
FileBad(e, p) ==
  LET want == disk'[p] got == e.files[p]
  IN CASE want.k = "none"  -> got # "none"
       [] want.k = "empty" -> got # "empty"
       [] want.k = "data"  -> \/ got \in {"none", "empty"}
                              \/ <<want.d, want.o>> \in DOMAIN seen'
                                 /\ seen'[<<want.d, want.o>>] # got

Steps ==
  /\ k < Len(Events)
  /\ LET e   == Events[k + 1]
         a   == Op(e.op, e.h, e.p, e.d, e.o, e.m)
         acc == Accepted(a)
         key == <<e.d, e.o>>
     IN /\ Effect(a)
        /\ seen' = IF e.op = "write" /\ acc /\ key \notin DOMAIN seen
                   THEN Put(seen, key, e.files[e.p]) ELSE seen
        /\ data' = IF e.op = "write" /\ acc THEN Put(data, key, e.wrote) ELSE data
        /\ bad' = bad
             \cup (IF acc # e.ok
                   THEN {e.op \o (IF e.ok THEN " accepted, should be refused" ELSE " refused, should be accepted")}
                   ELSE {})
             \cup {"file " \o p \o " is " \o e.files[p] \o ", should be " \o disk'[p].k
                     \o " after " \o e.op : p \in {q \in DOMAIN e.files : FileBad(e, q)}}
             \cup (IF e.op = "read" /\ e.ok
                   THEN LET w == data[<<H(e.h).saw.d, H(e.h).saw.o>>]
                        IN {"read " \o f : f \in {g \in DOMAIN w : g \notin DOMAIN e.fields \/ e.fields[g] # w[g]}}
                   ELSE {})
             \cup {"dictionary " \o d \o " changed by " \o e.op :
                     d \in {x \in DOMAIN e.dicts : e.dicts[x] # Cases[c].dicts[x]}}
             \cup {"descriptor left open on " \o p :
                     p \in {q \in DOMAIN e.files :
                              /\ \E j \in DOMAIN e.live : e.live[j] = q
                              /\ ~\E h \in DOMAIN handles' : handles'[h].path = q /\ handles'[h].open}}
  /\ k' = k + 1
  /\ UNCHANGED c
  /\ (k' = Len(Events) => PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad'])))

Spec == Init /\ [][Steps]_vars
=============================================================================
