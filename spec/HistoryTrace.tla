----------------------------- MODULE HistoryTrace -----------------------------
(***************************************************************************)
(* Recorded histories of several processes on equal inputs.  A case:       *)
(*   ops       Seq of operations (History.tla), named with their options   *)
(*   store     what the inputs hold at the start: input -> digest          *)
(*   contents  input that may change -> its contents -> digest             *)
(*   runs      Seq of processes [held, steps]: the contents that each      *)
(*             input that may change has at the start, and the history; op *)
(*             is an index into ops                                        *)
(***************************************************************************)
EXTENDS History, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, r, k, held, memo, bad
vars == <<c, r, k, held, memo, bad>>
Init == c \in DOMAIN Cases /\ r = 1 /\ k = 0 /\ bad = {} /\ memo = <<>> /\ held = Cases[c].runs[1].held

Run == Cases[c].runs[r].steps
Ops == Cases[c].ops
Performs ==
  /\ r <= Len(Cases[c].runs) /\ k < Len(Run)
  /\ k' = k + 1
  /\ LET e == Run[k + 1]
         o == Ops[e.op]
         key == Key(Ops, held, e.op)
         h2 == HeldAfter(held, o)
         now == StoreNow(Cases[c].store, Cases[c].contents, h2)
         was == StoreNow(Cases[c].store, Cases[c].contents, held)
         before == IF k = 0 THEN "the start" ELSE Ops[Run[k].op].name
     IN /\ held' = h2
        /\ memo' = Learn(memo, key, e.out)
        /\ bad' = bad \cup (IF Consistent(memo, key, e.out) THEN {}
                            ELSE {o.name \o " gives something else after " \o before})
                      \cup {o.name \o " changes " \o x : x \in
                              {y \in Changed(now, e) : k = 0 \/ Run[k].after[y] = was[y] \/ Run[k].after[y] # e.after[y]}}
  /\ UNCHANGED <<c, r>>
NextProcess ==
  /\ r <= Len(Cases[c].runs) /\ k = Len(Run)
  /\ r' = r + 1 /\ k' = 0 /\ held' = IF r < Len(Cases[c].runs) THEN Cases[c].runs[r + 1].held ELSE held
  /\ UNCHANGED <<c, memo, bad>>
Judges ==
  /\ r = Len(Cases[c].runs) + 1 /\ k = 0
  /\ k' = 1
  /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad]))
  /\ UNCHANGED <<c, r, held, memo, bad>>
Next == Performs \/ NextProcess \/ Judges
Spec == Init /\ [][Next]_vars
=============================================================================
