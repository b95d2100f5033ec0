------------------------------- MODULE HistoryMC -------------------------------
(***************************************************************************)
(* Small scope: which faults the histories that are performed can show.    *)
(* A process has a hidden flaw of one of these kinds:                      *)
(*   by, on   some operation `by`, performed at least Times times, changes *)
(*            what a later operation `on` gives (by = on is allowed)       *)
(*   stale    operation `on` goes on giving what it gave at first, although *)
(*            its input holds something else by now                        *)
(* Operations 1 and 2 put contents "a" and "b" into the input that         *)
(* operation 3 reads.  A walk performs the operations so that every        *)
(* ordered pair of them occurs next to each other, and then each once      *)
(* more.  On every walk of that kind the trace specification raises an     *)
(* alarm when there is a flaw, and none when there is not.                 *)
(***************************************************************************)
EXTENDS History
CONSTANTS N, Times
Ops == 1..N
OpRecs == [o \in Ops |-> [on |-> IF o = 3 THEN "x" ELSE "",
                          puts |-> IF o \in {1, 2} THEN "x" ELSE "",
                          as |-> IF o = 1 THEN "a" ELSE IF o = 2 THEN "b" ELSE ""]]
Readers == {o \in Ops : OpRecs[o].puts = ""}
Flaws == {[by |-> b, on |-> o, stale |-> FALSE] : b \in Ops, o \in Readers}
         \cup {[by |-> 0, on |-> 0, stale |-> FALSE], [by |-> 0, on |-> 3, stale |-> TRUE]}
VARIABLES flaw, last, left, again, counts, held, first, memo, alarm
vars == <<flaw, last, left, again, counts, held, first, memo, alarm>>
Init == /\ flaw \in Flaws /\ last = 0 /\ left = Ops \X Ops /\ again = Ops /\ alarm = FALSE
        /\ counts = 0 /\ memo = <<>> /\ held = [x \in {"x"} |-> "a"] /\ first = ""
Right(o) == IF OpRecs[o].on = "" THEN "right" ELSE "right of " \o held["x"]
Gives(o) == IF flaw.on = o /\ flaw.stale /\ first # "" THEN first
            ELSE IF flaw.on = o /\ flaw.by # 0 /\ counts >= Times THEN "other" ELSE Right(o)
Perform(o) ==
  /\ IF left # {} THEN last = 0 \/ <<last, o>> \in left ELSE o \in again
  /\ again' = IF left # {} THEN again ELSE again \ {o}
  /\ LET key == Key(OpRecs, held, o)
     IN alarm' = (alarm \/ ~Consistent(memo, key, Gives(o))) /\ memo' = Learn(memo, key, Gives(o))
  /\ held' = HeldAfter(held, OpRecs[o])
  /\ first' = IF o = 3 /\ first = "" THEN Gives(o) ELSE first
  /\ counts' = IF flaw.by = o THEN IF counts < Times THEN counts + 1 ELSE counts ELSE counts
  /\ left' = left \ {<<last, o>>}
  /\ last' = o
  /\ UNCHANGED flaw
Next == \E o \in Ops : Perform(o)
Spec == Init /\ [][Next]_vars

NoFalseAlarm == alarm => (flaw.by # 0 \/ flaw.stale)
\* a second process that performs `on` first gives the right result to compare with
Wrong == \E key \in DOMAIN memo : memo[key] # (IF key[2] = "" THEN "right" ELSE "right of " \o key[2])
FlawSeen == (left = {} /\ again = {} /\ (flaw.by # 0 \/ flaw.stale)) => (alarm \/ Wrong)
=============================================================================
