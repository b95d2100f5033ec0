------------------------------ MODULE NAToNCMC ------------------------------
(***************************************************************************)
(* Naming on every small source: the axes, then the converted variables,   *)
(* take their names one after the other, by any choice of number where a   *)
(* name is taken.  Names come from Pool, which is rich in names that       *)
(* become the same; one name may be asked to be replaced.  Every source is *)
(* exported, to be converted.                                              *)
(***************************************************************************)
EXTENDS NAToNC, Json
CONSTANTS Pool, Axes, Indices, MaxPrim, MaxAux, Targets, Most

VARIABLES src, axes, ids
vars == <<src, axes, ids>>

\* what the specification looks at when it names things
St(s) == [ffi |-> s.ffi, nv |-> Len(s.v), nauxv |-> Len(s.a), nvpm |-> 1,
          names |-> [n \in {"XNAME", "VNAME", "ANAME"} |-> CASE n = "XNAME" -> Rev(s.x) [] n = "VNAME" -> s.v [] OTHER -> s.a]]
Opts(s) == [rename |-> s.ren]
Item(s, k) ==
  LET p == k <= Len(s.v)
      raw == IF p THEN s.v[k] ELSE s.a[k - Len(s.v)]
  IN [name |-> SplitName(raw, "(", ")")[1],
      long |-> IF p THEN "naVariable_" \o ToString(k - 1) ELSE "naAuxVariable_" \o ToString(k - Len(s.v) - 1)]
Count(s) == Len(s.v) + Len(s.a)
Items(s) == [k \in 1..Count(s) |-> Item(s, k)]
Marks(s) == IF s.ffi = 1020 THEN {axes[1] \o "_marks"} ELSE {}

Renames(v) == {<< >>} \cup {<<[from |-> Lower(SplitName(v[1], "(", ")")[1]), to |-> t]>> : t \in Targets}
Init ==
  /\ \E f \in Indices : \E x \in [1..NIVof(f) -> Axes] : \E n \in 1..MaxPrim : \E v \in [1..n -> Pool] :
     \E m \in (IF f \in {1010, 1020} THEN 0..MaxAux ELSE {0}) : \E a \in [1..m -> Pool] : \E r \in Renames(v) :
       src = [ffi |-> f, x |-> x, v |-> v, a |-> a, ren |-> r]
  /\ axes = << >> /\ ids = << >>

Free(base, taken) == IF base \notin taken THEN {base} ELSE {base \o "_" \o ToString(k) : k \in 2..Most} \ taken
Rng(q) == {q[j] : j \in DOMAIN q}
NameAxis == /\ Len(axes) < Len(src.x)
            /\ \E n \in Free(AxisName(St(src), Len(axes) + 1), Rng(axes)) : axes' = Append(axes, n)
            /\ UNCHANGED <<src, ids>>
NameVar == /\ Len(axes) = Len(src.x) /\ Len(ids) < Count(src)
           /\ \E n \in Free(IdOf(Opts(src), Item(src, Len(ids) + 1)), Rng(axes) \cup Rng(ids) \cup Marks(src)) : ids' = Append(ids, n)
           /\ UNCHANGED <<src, axes>>
Next == NameAxis \/ NameVar
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Distinct == /\ \A j, k \in DOMAIN axes : j # k => axes[j] # axes[k]
            /\ \A j, k \in DOMAIN ids : j # k => ids[j] # ids[k]
            /\ Rng(axes) \cap Rng(ids) = {}
\* what the recorded conversions are judged by allows each of these choices
Allowed == /\ \A d \in DOMAIN axes : AxisNamed(St(src), d, axes[d])
           /\ \A k \in DOMAIN ids : NameRight(St(src), Opts(src), Item(src, k), [name |-> ids[k]], Items(src)) = {}
\* a name that nothing else could have is never changed
Undisturbed == \A k \in DOMAIN ids :
   LET b == IdOf(Opts(src), Item(src, k)) IN
   (\A j \in 1..Count(src) : j = k \/ ~Has(IdOf(Opts(src), Item(src, j)), "a")) /\ (\A d \in DOMAIN axes : ~Has(axes[d], "a"))
     => ids[k] = b
Export == axes = << >> => PrintT("EXPORT " \o ToJson(src))
Finishes == <>(Len(ids) = Count(src))
=============================================================================
