----------------------------- MODULE CompareMC ------------------------------
(***************************************************************************)
(* The verdict as a relation, on all pairs of small files: reflexive,      *)
(* symmetric, coarser with more lenient options, and a conjunction of its  *)
(* sections.                                                               *)
(***************************************************************************)
EXTENDS Compare, IOUtils

Item(s, v, m) == [s |-> s, v |-> v, m |-> m, known |-> v # ""]
Items == {Item("a", "", 0), Item("5", "5", 5000), Item("5.0", "5", 5000), Item("5.04", "5.04", 5040)}
Line(items, t) == [t |-> t, items |-> items, words |-> items]
Second == IF IOEnv.DEEP = "1" THEN Items ELSE {Item("a", "", 0)}
Lines == {Line(<<i>>, i.s) : i \in Items} \cup {Line(<<i, j>>, i.s \o " " \o j.s) : i \in Items, j \in Second}
Files == {[nh |-> 1, lines |-> ls] : ls \in UNION {[1..n -> Lines] : n \in 1..2}}
Opts == [header : BOOLEAN, body : BOOLEAN, clever : BOOLEAN, approx : BOOLEAN]
VARIABLES f, g, o
Init == f \in Files /\ g \in Files /\ o = [header |-> TRUE, body |-> TRUE, clever |-> TRUE, approx |-> TRUE]
Next == UNCHANGED <<f, g, o>>
Lenient(p) == [p EXCEPT !.clever = TRUE]
Reflexive == \A p \in Opts : Same(f, f, p)
Symmetric == \A p \in Opts : Same(f, g, p) <=> Same(g, f, p)
Coarser   == \A p \in Opts : /\ Same(f, g, p) => Same(f, g, [p EXCEPT !.clever = TRUE])
                             /\ (p.clever /\ Same(f, g, p)) => Same(f, g, [p EXCEPT !.approx = TRUE])
Sections  == \A p \in Opts : (p.header /\ p.body) =>
               (Same(f, g, p) <=> (Same(f, g, [p EXCEPT !.body = FALSE]) /\ Same(f, g, [p EXCEPT !.header = FALSE])))
=============================================================================
