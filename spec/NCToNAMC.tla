------------------------------ MODULE NCToNAMC ------------------------------
(***************************************************************************)
(* The grouping machine on every small source: each list of at most MaxVars *)
(* variables whose dimensions are taken from Dims, for each requested index *)
(* (0: none).  Every source is exported, to be built and converted.         *)
(***************************************************************************)
EXTENDS NCToNA, Json
CONSTANTS MaxVars, Dims, Indices

Axes == [a |-> [id |-> "a", units |-> "", iv |-> <<0, 8, 16, 24>>, exact |-> TRUE],
         b |-> [id |-> "b", units |-> "", iv |-> <<0, 8>>, exact |-> TRUE],
         c |-> [id |-> "c", units |-> "", iv |-> <<0, 16>>, exact |-> TRUE],     \* every second of a
         d |-> [id |-> "d", units |-> "", iv |-> <<0, 8, 24>>, exact |-> TRUE]]  \* uneven
AllDims == {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"d">>, <<"a", "b">>, <<"b", "a">>, <<"a", "d">>, <<"c", "b">>,
            <<"a", "b", "c">>, <<"b", "c", "d">>, <<"a", "b", "c", "d">>}
FewDims == {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"b", "a">>, <<"a", "d">>}
RECURSIVE Points(_)
Points(ks) == IF ks = << >> THEN 1 ELSE Len(Axes[ks[1]].iv) * Points(Tail(ks))
Source(dd) == [axes |-> Axes,
               vars |-> [k \in DOMAIN dd |-> [id |-> "v" \o ToString(k), dims |-> dd[k],
                           val |-> [j \in 1..Points(dd[k]) |-> ""]]],
               bounds |-> << >>]

VARIABLES ds, ffi, rest, groups, refused
vars == <<ds, ffi, rest, groups, refused>>
src == Source(ds)
All == Gridded(src, DOMAIN src.vars)

Init == /\ ds \in UNION {[1..n -> Dims] : n \in 1..MaxVars}
        /\ ffi \in Indices
        /\ rest = All /\ groups = << >> /\ refused = FALSE
        /\ PrintT("EXPORT " \o ToJson([dims |-> ds, ffi |-> ffi]))

Take(l, A) ==
  LET f == IF ffi = 0 THEN Standard(Rank(src, l), A # {}) ELSE ffi
  IN IF Feasible(src, l, A, f)
     THEN /\ groups' = Append(groups, [l |-> l, v |-> Members(src, rest, l), a |-> A, ffi |-> f])
          /\ rest' = rest \ (Members(src, rest, l) \cup A)
          /\ UNCHANGED <<ds, ffi, refused>>
     ELSE refused' = TRUE /\ UNCHANGED <<ds, ffi, rest, groups>>
Next == ~refused /\ \E l \in Leaders(src, rest) : \E A \in AuxSets(src, rest, l, ffi) : Take(l, A)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every variable is in one file or still to be written, and in one role
Held(g) == g.v \cup g.a
Partition == /\ rest \cup UNION {Held(groups[k]) : k \in DOMAIN groups} = All
             /\ \A k \in DOMAIN groups : Held(groups[k]) \cap rest = {} /\ groups[k].v \cap groups[k].a = {}
             /\ \A j, k \in DOMAIN groups : j # k => Held(groups[j]) \cap Held(groups[k]) = {}
\* what shares a file has its axes
OneShape == \A k \in DOMAIN groups : \A x \in groups[k].v : src.vars[x].dims = src.vars[groups[k].l].dims
LeadingAux == \A k \in DOMAIN groups : groups[k].ffi # 1020 =>
                \A x \in groups[k].a : src.vars[x].dims = SubSeq(src.vars[groups[k].l].dims, 1, 1)
Together == \A j, k \in DOMAIN groups : j # k => src.vars[groups[j].l].dims # src.vars[groups[k].l].dims
Ranked == \A j, k \in DOMAIN groups : j < k => Rank(src, groups[j].l) >= Rank(src, groups[k].l)
IndexFits == \A k \in DOMAIN groups : /\ NIVof(groups[k].ffi) = Rank(src, groups[k].l)
                                      /\ groups[k].a # {} => groups[k].ffi # 1001
\* without a request nothing is refused, and a request is refused only where it cannot be met
NeverRefused == ffi = 0 => ~refused
RefusedRightly == refused => ~AllFeasible(src, All, ffi)
Requested == ffi # 0 => \A k \in DOMAIN groups : groups[k].ffi = ffi
Finishes == <>(rest = {} \/ refused)
=============================================================================
