------------------------------ MODULE AppendMC ------------------------------
(***************************************************************************)
(* Every short history of conversions into targets: of a source or a       *)
(* selection of it, from a file or a dictionary, written or appended.      *)
(* holds[t] is the set of variables target t has, as <<source, variable>>; *)
(* last[t] is the source whose header items it carries.  The histories are *)
(* exported, to be performed.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sources, Targets, Vars, Routes, Steps

\* which of the variables of a source an operation takes; a dictionary is taken whole
Parts == {"all", "first", "rest"}
Part(p) == CASE p = "all" -> 1..Vars [] p = "first" -> {1} [] OTHER -> 2..Vars
Ops == {o \in [src: Sources, target: Targets, mode: {"w", "a"}, part: Parts, route: Routes] :
          /\ o.route = "dict" => o.part = "all"}
Given(o) == {<<o.src, v>> : v \in Part(o.part)}

VARIABLES prog, holds, last
vars == <<prog, holds, last>>
Init == prog = << >> /\ holds = [t \in Targets |-> {}] /\ last = [t \in Targets |-> 0]
Do(o) == /\ prog' = Append(prog, o)
         /\ holds' = [holds EXCEPT ![o.target] = IF o.mode = "w" THEN Given(o) ELSE @ \cup Given(o)]
         /\ last' = [last EXCEPT ![o.target] = o.src]
Next == Len(prog) < Steps /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

\* what a target holds, said of the history as a whole: the given variables since it was last written
Since(t) == LET ws == {j \in DOMAIN prog : prog[j].target = t /\ prog[j].mode = "w"}
                from == IF ws = {} THEN 1 ELSE CHOOSE j \in ws : \A i \in ws : i <= j
            IN {j \in DOMAIN prog : j >= from /\ prog[j].target = t}
Accounted == \A t \in Targets : /\ holds[t] = UNION {Given(prog[j]) : j \in Since(t)}
                                /\ last[t] = 0 <=> holds[t] = {}
Newest == prog # << >> => LET o == prog[Len(prog)] IN Given(o) \subseteq holds[o.target] /\ last[o.target] = o.src
Kept == [][\A t \in Targets : LET o == prog'[Len(prog')] IN
             IF o.target # t THEN holds'[t] = holds[t] /\ last'[t] = last[t]
             ELSE IF o.mode = "a" THEN holds[t] \subseteq holds'[t] /\ Cardinality(holds'[t]) <= Cardinality(holds[t]) + Vars
             ELSE holds'[t] = Given(o)]_vars
Export == Len(prog) = Steps =>
  PrintT("EXPORT " \o ToJson([prog |-> prog, holds |-> [t \in Targets |-> Cardinality(holds[t])]]))
=============================================================================
