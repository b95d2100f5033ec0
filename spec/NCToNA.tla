------------------------------- MODULE NCToNA -------------------------------
(***************************************************************************)
(* Converting a set of gridded variables (a NetCDF file, xarray objects)   *)
(* to NASA Ames files.                                                     *)
(*                                                                         *)
(* A source src is a record                                                *)
(*   axes   key -> [id, cands, units, iv, tok, dtok, time, cal, unit, ref] *)
(*          iv: the values as integers (multiples of 1/8), tok: as text,   *)
(*          dfmt: the same in the number format of the data,               *)
(*          exact: whether differences of the values are exact,            *)
(*          dtok: the difference of the first two as text                  *)
(*   vars   Seq of [id, cands, units, dims (axis keys), val (row-major     *)
(*          text), m (1 where missing), miss, num, anum, text, attrs]      *)
(*   bounds ids of axis bounds                                             *)
(* cands are the values of the naming attributes in order, ending with the *)
(* id.  The conversion is a machine: while variables remain, a leader is   *)
(* chosen among those of highest rank, then size, and its group leaves as  *)
(* one file.                                                               *)
(***************************************************************************)
EXTENDS NAFormat, Calendar

\* ---------------------------------------------------------------- the names
RECURSIVE CountIn(_, _, _)
CountIn(s, t, k) ==                       \* occurrences of t in s from position k, not overlapping
  IF k + Len(t) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, k, k + Len(t) - 1) = t THEN 1 + CountIn(s, t, k + Len(t))
  ELSE CountIn(s, t, k + 1)
RECURSIVE Without(_, _, _)
Without(s, t, k) ==
  IF k + Len(t) - 1 > Len(s) THEN SubSeq(s, k, Len(s))
  ELSE IF SubSeq(s, k, k + Len(t) - 1) = t THEN Without(s, t, k + Len(t))
  ELSE SubSeq(s, k, k) \o Without(s, t, k + 1)
RECURSIVE LTrim(_)
LTrim(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = " " THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = " " THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
Has(s, t) == t = "" \/ CountIn(s, t, 1) > 0

RECURSIVE SqueezeTo(_, _)
SqueezeTo(s, k) == IF k = 0 THEN ""
                   ELSE IF SubSeq(s, k, k) = " " /\ (k = 1 \/ SubSeq(s, k - 1, k - 1) = " ") THEN SqueezeTo(s, k - 1)
                   ELSE SqueezeTo(s, k - 1) \o SubSeq(s, k, k)
Squeeze(s) == SqueezeTo(s, Len(s))       \* runs of blanks as one
\* name and units of a variable or axis; the units are stated once
Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
\* without empty parentheses at the end
NoEmpty(s) == IF Len(s) >= 2 /\ SubSeq(s, Len(s) - 1, Len(s)) = "()" THEN SubSeq(s, 1, Len(s) - 2) ELSE s
BestName(v) ==
  LET u == "(" \o v.units \o ")"
      n == v.cands[1] \o " " \o u
  IN Squeeze(IF v.units = "" THEN Trim(NoEmpty(Trim(v.cands[1])))
             ELSE IF CountIn(n, u, 1) > 1 THEN Trim(Without(n, u, 1) \o u)
             ELSE Trim(n))

\* -------------------------------------------------------- which variables
\* opts: all (BOOLEAN), ids (Seq), exclude (Seq, in lower case), ffi (0 if none)
IsAxis(src, v)  == \E w \in DOMAIN src.vars : \E k \in DOMAIN src.vars[w].dims :
                      src.axes[src.vars[w].dims[k]].id = v.id
Wanted(src, opts) ==                    \* indices of the variables to be written
  {k \in DOMAIN src.vars :
     LET v == src.vars[k] IN
       /\ opts.all \/ v.id \in Range(opts.ids)
       /\ v.id \notin Range(opts.exclude)
       /\ v.id \notin Range(src.bounds)}

\* ------------------------------------------------------------------ grouping
Var(src, k)  == src.vars[k]
Rank(src, k) == Len(Var(src, k).dims)
Size(src, k) == Len(Var(src, k).val)
Ax(src, key) == src.axes[key]
SameAxis(a, b) == a.id = b.id /\ a.units = b.units /\ a.iv = b.iv
Uniform(a) == \A k \in 2..Len(a.iv) : a.iv[k] - a.iv[k - 1] = a.iv[2] - a.iv[1]
\* b lists every n-th value of a, from the first on: n, else 0
Every(a, b) ==
  IF Len(b.iv) = 0 \/ Len(a.iv) % Len(b.iv) # 0 THEN 0
  ELSE LET n == Len(a.iv) \div Len(b.iv)
       IN IF a.units = b.units /\ \A k \in DOMAIN b.iv : b.iv[k] = a.iv[n * (k - 1) + 1] THEN n ELSE 0

Gridded(src, R) == {k \in R : Rank(src, k) > 0}
Leaders(src, R) ==
  LET G == Gridded(src, R)
      top == {k \in G : \A j \in G : Rank(src, j) <= Rank(src, k)}
  IN {k \in top : \A j \in top : Size(src, j) <= Size(src, k)}

SameShape(src, l, k) ==
  /\ Rank(src, k) = Rank(src, l)
  /\ \A d \in 1..Rank(src, l) : SameAxis(Ax(src, Var(src, l).dims[d]), Ax(src, Var(src, k).dims[d]))
OnLeading(src, l, k) ==
  /\ Rank(src, k) = 1 /\ Rank(src, l) > 1
  /\ SameAxis(Ax(src, Var(src, l).dims[1]), Ax(src, Var(src, k).dims[1]))
\* for FFI 1020: an auxiliary variable given at every n-th point
Implied(src, l, k) ==
  IF Rank(src, k) = 1 /\ Rank(src, l) = 1 /\ Uniform(Ax(src, Var(src, l).dims[1]))
  THEN Every(Ax(src, Var(src, l).dims[1]), Ax(src, Var(src, k).dims[1])) ELSE 0

Members(src, R, l) == {k \in Gridded(src, R) : SameShape(src, l, k)}
\* the possible sets of auxiliary variables of a group (FFI 1020: one number of
\* implied points for all of them)
AuxSets(src, R, l, ffi) ==
  IF ffi = 1020 /\ Rank(src, l) = 1 THEN
    LET cand == {k \in Gridded(src, R) \ Members(src, R, l) : Implied(src, l, k) > 1}
    IN IF cand = {} THEN {{}}
       ELSE {{k \in cand : Implied(src, l, k) = n} : n \in {Implied(src, l, k) : k \in cand}}
  ELSE {{k \in Gridded(src, R) : OnLeading(src, l, k)}}

\* ------------------------------------------------------- the format index
Standard(rank, aux) == CASE rank = 1 -> (IF aux THEN 1010 ELSE 1001)
                         [] rank = 2 -> 2010 [] rank = 3 -> 3010 [] rank = 4 -> 4010
                         [] OTHER -> 0                      \* cannot be written
Possible(rank) == CASE rank = 1 -> {1001, 1010, 1020} [] rank = 2 -> {2010, 2110, 2310}
                    [] rank = 3 -> {3010} [] rank = 4 -> {4010} [] OTHER -> {}

\* whether the group of leader l with auxiliary set A can be held in an index
Feasible(src, l, A, ffi) ==
  CASE ffi = 1001 -> Rank(src, l) = 1 /\ A = {}
    [] ffi = 1010 -> Rank(src, l) = 1 /\ A # {}
    [] ffi = 1020 -> Rank(src, l) = 1 /\ A # {} /\ Ax(src, Var(src, l).dims[1]).exact
    [] ffi = 2310 -> Rank(src, l) = 2 /\ Uniform(Ax(src, Var(src, l).dims[2])) /\ Ax(src, Var(src, l).dims[2]).exact
    [] OTHER -> ffi \in Possible(Rank(src, l))
RECURSIVE AllFeasible(_, _, _)           \* on every way of grouping the variables R
AllFeasible(src, R, ffi) ==
  \A l \in Leaders(src, R) : \A A \in AuxSets(src, R, l, ffi) :
     Feasible(src, l, A, ffi) /\ AllFeasible(src, R \ (Members(src, R, l) \cup A), ffi)

Structural(ffi) == CASE ffi = 2110 -> 1 [] ffi = 2310 -> 3 [] OTHER -> 0

\* ----------------------------------------------- what a file of a group holds
Leaves(flat) == SelectSeq(flat, LAMBDA t : t \notin {"[", "]"})
Vs(st)  == [n \in 1..st.nv |->
              <<Squeeze(st.names["VNAME"][n]), st.nums["VMISS"][n], Cat([m \in DOMAIN st.marks |-> VOf(st, n, m)])>>]
As(st)  == IF HasAux(st)
           THEN [n \in 1..(st.nauxv - Structural(st.ffi)) |->
                  LET a == n + Structural(st.ffi)
                  IN <<Squeeze(st.names["ANAME"][a]), st.nums["AMISS"][a],
                       [m \in DOMAIN st.marks |-> st.marks[m].a[a]]>>]
           ELSE << >>
Lens(src, l) == [d \in 1..Rank(src, l) |-> Len(Ax(src, Var(src, l).dims[d]).iv)]
WantV(src, k) ==
  LET nested == Nest(Var(src, k).val, Lens(src, k))
  IN <<BestName(Var(src, k)), Var(src, k).miss, SubSeq(nested, 2, Len(nested) - 1)>>
WantA(src, k) == <<BestName(Var(src, k)), Var(src, k).miss, Var(src, k).val>>
Names(trips) == [k \in DOMAIN trips |-> trips[k][1]]

\* the same things, each as often, in any order
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) :
                    Cardinality({k \in DOMAIN s : s[k] = x}) = Cardinality({k \in DOMAIN t : t[k] = x})
Listed(S) == SetToSeq(S)

AxisGiven(a, x, nx, nxdef, dx) ==
  /\ nx = Len(a.tok) /\ nxdef \in 1..nx /\ x = SubSeq(a.tok, 1, nxdef)
  /\ nxdef = nx \/ (Uniform(a) /\ dx = a.dtok)
  /\ dx = "0" \/ (Uniform(a) /\ dx = a.dtok)

AxesRight(src, st, l) ==
  LET f  == st.ffi
      r  == Rank(src, l)
      ax == [d \in 1..r |-> Ax(src, Var(src, l).dims[d])]
      xs == [m \in DOMAIN st.marks |-> st.marks[m].x]
      dx == Rev(st.nums["DX"])
  IN IF NIVof(f) # r THEN {"number of axes"}
     ELSE (IF [d \in 1..r |-> Squeeze(Rev(st.names["XNAME"])[d])] = [d \in 1..r |-> BestName(ax[d])] THEN {} ELSE {"axis names"})
     \cup (CASE f \in {1001, 1010} ->
                  IF AxisGiven(ax[1], xs, Len(xs), Len(xs), dx[1]) THEN {} ELSE {"axis"}
             [] f = 1020 ->
                  IF /\ st.nvpm * Len(xs) = Len(ax[1].tok)
                     /\ xs = [k \in DOMAIN xs |-> ax[1].tok[(k - 1) * st.nvpm + 1]]
                     /\ Uniform(ax[1]) /\ dx[1] \in {ax[1].dtok, ax[1].dfmt} THEN {} ELSE {"axis"}
             [] f \in GridFFIs ->
                  {"axis " \o ToString(d) : d \in {e \in 1..r :
                     ~(IF e = 1 THEN AxisGiven(ax[1], xs, Len(xs), Len(xs), dx[1])
                       ELSE LET s == r - e + 1                    \* header order: fastest first
                            IN AxisGiven(ax[e], st.xdef[s], st.nx[s], st.nxdef[s], dx[e]))}}
             [] f = 2110 ->
                  (IF AxisGiven(ax[1], xs, Len(xs), Len(xs), dx[1]) THEN {} ELSE {"axis 1"})
                  \cup (IF \A m \in DOMAIN st.marks :
                              /\ [k \in DOMAIN st.marks[m].rows |-> st.marks[m].rows[k][1]] = ax[2].tok
                        THEN {} ELSE {"axis 2"})
                  \cup (IF dx[2] = "0" \/ (Uniform(ax[2]) /\ dx[2] = ax[2].dtok) THEN {} ELSE {"DX"})
             [] f = 2310 ->
                  (IF AxisGiven(ax[1], xs, Len(xs), Len(xs), dx[1]) THEN {} ELSE {"axis 1"})
                  \cup (IF Uniform(ax[2]) /\ \A m \in DOMAIN st.marks :
                              /\ st.marks[m].nx = Len(ax[2].tok)
                              /\ st.marks[m].a[2] = ax[2].tok[1]
                              /\ Len(ax[2].tok) = 1 \/ st.marks[m].a[3] = ax[2].dfmt
                        THEN {} ELSE {"axis 2"}))

\* numbered variables come first, by their numbers
Numbered(src, S, trips, num(_)) ==
  LET nums == [k \in DOMAIN trips |->
                 LET c == {v \in S : BestName(Var(src, v)) = trips[k][1]}
                 IN IF Cardinality(c) # 1 THEN -2 ELSE num(Var(src, CHOOSE v \in c : TRUE))]
  IN \A i, j \in DOMAIN trips : i < j /\ nums[j] >= 0 /\ nums[i] # -2 => nums[i] >= 0 /\ nums[i] <= nums[j]
NumOf(v) == v.num
ANumOf(v) == v.anum

\* ------------------------------------------------- explaining a set of files
\* The files are explained by the machine: the k-th holds the group of one of
\* the leaders of what remained.  A state is [rem, groups, bad].
Explains(src, st, R, l, A) ==
  /\ SameBag(Names(Vs(st)), [k \in DOMAIN Listed(Members(src, R, l)) |->
                                BestName(Var(src, Listed(Members(src, R, l))[k]))])
  /\ SameBag(Names(As(st)), [k \in DOMAIN Listed(A) |-> BestName(Var(src, Listed(A)[k]))])
\* the shape decides among leaders whose groups have the same names
FitsShape(src, st, l) ==
  /\ NIVof(st.ffi) = Rank(src, l)
  /\ Len(Leaves(Vs(st)[1][3])) = Size(src, l)
  /\ AxesRight(src, st, l) = {}
GroupOf(src, st, R, ffi) ==
  LET fit(l)  == {A \in AuxSets(src, R, l, ffi) : Explains(src, st, R, l, A)}
      cand == {l \in Leaders(src, R) : fit(l) # {}}
      best == {l \in cand : FitsShape(src, st, l)}
      pick == IF best # {} THEN best ELSE cand
  IN IF pick = {} THEN [l |-> 0, v |-> {}, a |-> {}]
     ELSE LET l == CHOOSE x \in pick : TRUE
          IN [l |-> l, v |-> Members(src, R, l), a |-> CHOOSE A \in fit(l) : TRUE]

RECURSIVE Explain(_, _, _, _)
Explain(src, R, sts, ffi) ==             \* the groups of the files, as far as they can be explained
  IF sts = << >> THEN << >>
  ELSE LET g == GroupOf(src, sts[1], R, ffi)
       IN IF g.l = 0 THEN << >>
          ELSE <<g>> \o Explain(src, R \ (g.v \cup g.a), Tail(sts), ffi)

\* ------------------------------------------------------------------ clauses
\* single values: the lines of the special comments that record variable k
Records(src, st, k) ==
  LET ls == st.names["SCOM"]
      v  == Var(src, k)
      heads == {j \in DOMAIN ls : Has(ls[j], "Variable ") /\ (\/ Ends(Squeeze(ls[j]), ": " \o BestName(v))
                                                               \/ Ends(Squeeze(ls[j]), "Variable " \o BestName(v)))}
      shown(j) == \E e \in j..Len(ls) :
                     /\ Has(ls[e], "value = ") /\ Has(ls[e], IF v.text = "" THEN v.val[1] ELSE v.text)
                     /\ \A i \in (j + 1)..e : ~Has(ls[i], "Variable ")
  IN {j \in heads : shown(j)}

\* P09: each wanted variable exactly once
Once(src, opts, sts) ==
  LET W == Wanted(src, opts)
      G == Listed({k \in W : Rank(src, k) > 0})
      Z == {k \in W : Rank(src, k) = 0}
      got == Cat([j \in DOMAIN sts |-> Names(Vs(sts[j])) \o Names(As(sts[j]))])
      want == [j \in DOMAIN G |-> BestName(Var(src, G[j]))]
      times(k) == Cat([j \in DOMAIN sts |-> Listed(Records(src, sts[j], k))])
  IN {"lost: " \o want[k] : k \in {j \in DOMAIN want : want[j] \notin Range(got)}}
     \cup {"not asked for: " \o got[k] : k \in {j \in DOMAIN got : got[j] \notin Range(want)}}
     \cup (IF Range(got) = Range(want) /\ ~SameBag(got, want) THEN {"not exactly once"} ELSE {})
     \cup {"single value not recorded exactly once: " \o Var(src, k).id : k \in {j \in Z : Len(times(j)) \notin 1..Cardinality({i \in Z : BestName(Var(src, i)) = BestName(Var(src, j))})}}
     \cup {"single value recorded but not asked for: " \o Var(src, k).id :
             k \in {j \in DOMAIN src.vars \ W : Rank(src, j) = 0 /\ Len(times(j)) # 0
                       /\ \A i \in Z : Var(src, i).cands # Var(src, j).cands}}

\* P10 and P11: one file and its group
FileRight(src, st, g) ==
  LET vs == Vs(st)
      as == As(st)
      wv == [k \in DOMAIN Listed(g.v) |-> WantV(src, Listed(g.v)[k])]
      wa == [k \in DOMAIN Listed(g.a) |-> WantA(src, Listed(g.a)[k])]
  IN AxesRight(src, st, g.l)
     \cup (IF SameBag([k \in DOMAIN vs |-> <<vs[k][1], vs[k][3]>>], [k \in DOMAIN wv |-> <<wv[k][1], wv[k][3]>>])
           THEN {} ELSE {"values"})
     \cup (IF SameBag([k \in DOMAIN as |-> <<as[k][1], as[k][3]>>], [k \in DOMAIN wa |-> <<wa[k][1], wa[k][3]>>])
           THEN {} ELSE {"auxiliary values"})
     \cup (IF st.nums["VSCAL"] = [k \in 1..st.nv |-> "1"] THEN {} ELSE {"scale factors"})
     \cup (IF Numbered(src, g.v, vs, NumOf) /\ Numbered(src, g.a, as, ANumOf) THEN {} ELSE {"numbering"})
IndexRight(st, g, ffi) ==
  IF ffi # 0 THEN (IF st.ffi = ffi THEN {} ELSE {"index not the requested one"})
  ELSE IF st.ffi = Standard(NIVof(st.ffi), g.a # {}) THEN {} ELSE {"index not the standard one"}

\* P18: what is missing in the file is what is missing in the source, and the
\* missing value is the declared one unless a valid value looks like it
Shown(trip) == [k \in DOMAIN Leaves(trip[3]) |-> IF Leaves(trip[3])[k] = trip[2] THEN "none" ELSE Leaves(trip[3])[k]]
WantShown(v) == [k \in DOMAIN v.val |-> IF v.m[k] = 1 THEN "none" ELSE v.val[k]]
Clash(v) == \E k \in DOMAIN v.val : v.m[k] = 0 /\ v.val[k] = v.miss
MissingRight(src, st, g) ==
  LET got(trips) == [k \in DOMAIN trips |-> <<trips[k][1], Shown(trips[k])>>]
      want(S) == [k \in DOMAIN Listed(S) |-> LET v == Var(src, Listed(S)[k]) IN <<BestName(v), WantShown(v)>>]
      stated(trips, S) ==
        \A k \in DOMAIN Listed(S) : LET v == Var(src, Listed(S)[k]) IN
          Clash(v) \/ \E j \in DOMAIN trips : trips[j][1] = BestName(v) /\ trips[j][2] = v.miss
  IN (IF stated(Vs(st), g.v) /\ stated(As(st), g.a) THEN {} ELSE {"missing value"})
     \cup (IF SameBag(got(Vs(st)), want(g.v)) /\ SameBag(got(As(st)), want(g.a)) THEN {} ELSE {"missing positions"})

\* P22: the start date is the date of the first time; the other is that of the conversion
DateRight(src, st, g, days) ==
  LET a == Ax(src, Var(src, g.l).dims[1]) IN
  (IF SubSeq(st.nums["DATES"], 4, 6) \in Range(days) THEN {} ELSE {"revision date"})
  \cup
  IF ~a.time THEN (IF src.first = << >> \/ SubSeq(st.nums["DATES"], 1, 3) = src.first THEN {} ELSE {"given start date"})
  ELSE LET d == DateAfter(a.cal, a.unit, a.ref, a.iv[1])
       IN IF SubSeq(st.nums["DATES"], 1, 3) = [k \in 1..3 |-> ToString(d[k])] THEN {} ELSE {"start date"}
=============================================================================
