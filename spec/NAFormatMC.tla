----------------------------- MODULE NAFormatMC -----------------------------
(***************************************************************************)
(* The language of the reader machine: every well-formed file of a small   *)
(* scope, grown line by line.  Each value is new, so that where it goes    *)
(* can be followed.  Items listed over several lines may be broken at any  *)
(* place, Breaks times in a file.  Complete files are exported, to be read *)
(* and written by nappy.                                                   *)
(***************************************************************************)
EXTENDS NAFormat, Json
CONSTANTS Ffis, MaxNV, MaxAux, MaxMarks, MaxDim, MaxCom, Breaks

VARIABLES ffi, st, lines, fresh, breaks, done
vars == <<ffi, st, lines, fresh, breaks, done>>

Whl(k)  == [s |-> ToString(k), q |-> 2, i |-> k]
Real(k) == [s |-> ToString(k) \o ".5", q |-> 1, i |-> -1]
RECURSIVE Words(_)
Words(its) == IF its = << >> THEN "" ELSE IF Len(its) = 1 THEN its[1].s ELSE its[1].s \o " " \o Words(Tail(its))
Line(its)  == [r |-> Words(its), t |-> Words(its), n |-> its]
Text(k)    == [r |-> "t" \o ToString(k), t |-> "t" \o ToString(k), n |-> <<[s |-> "t" \o ToString(k), q |-> 0, i |-> -1]>>]
Reals(k, n) == [j \in 1..n |-> Real(k + j)]
Ints(k, n)  == [j \in 1..n |-> Whl(5000 + k + j)]

P    == st.phases[st.ph][1]
Idx  == st.phases[st.ph][2]
Want == Need(P, Idx, st)

Init == /\ ffi \in Ffis
        /\ st = InitState(0)
        /\ lines = << >> /\ fresh = 0 /\ breaks = 0 /\ done = FALSE

\* the header is as long as it turns out to be
Grow(line, used, cost) ==
  /\ st' = Step([st EXCEPT !.nlhead = st.used + 1], line)
  /\ lines' = Append(lines, line)
  /\ fresh' = fresh + used
  /\ breaks' = breaks + cost
  /\ UNCHANGED <<ffi, done>>

Counts(p) == CASE p = "NV" -> {<<n>> : n \in 1..MaxNV}
               [] p = "NAUXV" -> LET few == CASE ffi \in RowFFIs -> 1 [] ffi = 2310 -> 3 [] OTHER -> 0
                                 IN {<<n>> : n \in few..(few + MaxAux)}
               [] p = "NAUXC" -> {<<n>> : n \in 0..(st.nauxv - 1)}
               [] p = "NVPM" -> {<<n>> : n \in 1..MaxDim}
               [] p \in {"NSCOML", "NNCOML"} -> {<<n>> : n \in 0..MaxCom}
               [] p = "NX" -> [1..(NIVof(ffi) - 1) -> 1..MaxDim]
               [] p = "NXDEF" -> {d \in [1..(NIVof(ffi) - 1) -> 1..MaxDim] : \A k \in DOMAIN d : d[k] <= st.nx[k]}
IsCount(p) == p \in {"NV", "NAUXV", "NAUXC", "NVPM", "NSCOML", "NNCOML", "NX", "NXDEF"}

\* the place of the number of rows among the items of a mark
RowsAt == CASE P = "XA" /\ ffi \in {2110, 2310} -> 2 [] P = "A" -> 1 [] OTHER -> 0
Width  == IF P = "ROWS" THEN 1 + st.nv ELSE Want

Top    == P = "TOP" /\ Grow(Line(<<Whl(0), Whl(ffi)>>), 0, 0)
Texts  == Kind(P) \in {"text", "lines"} /\ Grow(Text(fresh + 1), 1, 0)
Choice == IsCount(P) /\ \E c \in Counts(P) : Grow(Line([k \in DOMAIN c |-> Whl(c[k])]), 0, 0)
Whole  == /\ Kind(P) \in {"intline", "numline"} /\ P # "TOP" /\ ~IsCount(P)
          /\ Grow(Line(IF P = "DX" THEN Reals(fresh, Want) ELSE Ints(fresh, Want)), Want, 0)
Listed == /\ Kind(P) \in {"nums", "ints"}
          /\ \E j \in 1..(Width - Len(st.acc)) :
               /\ j < Width - Len(st.acc) => breaks < Breaks
               /\ \E nr \in 0..MaxDim :
                    LET its == IF Kind(P) = "ints" THEN Ints(fresh, j) ELSE Reals(fresh, j)
                        at  == RowsAt - Len(st.acc)
                    IN /\ at \notin 1..j => nr = 0
                       /\ Grow(Line(IF at \in 1..j THEN [its EXCEPT ![at] = Whl(nr)] ELSE its), j,
                               IF j < Width - Len(st.acc) THEN 1 ELSE 0)

Between == st.sect = "D" /\ st.ph = 1 /\ st.acc = << >>
File == [k \in DOMAIN lines |-> IF k = 1 THEN Line(<<Whl(st.nhead), Whl(ffi)>>) ELSE lines[k]]
Stop == /\ Between /\ ~done
        /\ done' = TRUE
        /\ PrintT("EXPORT " \o ToJson([lines |-> [k \in DOMAIN File |-> File[k].r], ffi |-> ffi, breaks |-> breaks]))
        /\ UNCHANGED <<ffi, st, lines, fresh, breaks>>
Next == \/ ~done /\ ~(Between /\ Len(st.marks) = MaxMarks) /\ (Top \/ Texts \/ Choice \/ Whole \/ Listed)
        \/ Stop
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ theorems
Accepted == st.err = ""
\* a file ends well exactly between two marks
EndsWell == (Finish(st).err = "") <=> Between
\* its own reading is the one it was grown by
ReadsBack == done => LET s == Read(0, File) IN s.err = "" /\ \A fd \in FieldNames \ {"NLHEAD"} : Field(s, fd) = Field(st, fd)
\* every value is in one place (the first point of an FFI 2310 axis is in two fields)
New(k) == {ToString(k) \o ".5", ToString(5000 + k), "t" \o ToString(k)}
Conserved == done =>
  LET fds    == SetToSeq(FieldNames)
      shown  == TLCEval(Cat([j \in DOMAIN fds |-> Field(st, fds[j])]))
      tokens == TLCEval(Range(Cat([k \in DOMAIN lines |-> Str(lines[k].n)])))
  IN \A k \in 1..fresh :
       LET here  == New(k) \cap tokens
           times == Cardinality({j \in DOMAIN shown : shown[j] \in here})
       IN here = {} \/ times = 1 \/ (ffi = 2310 /\ times = 2)
\* where lines are broken does not matter
RECURSIVE JoinedUp(_, _, _)
JoinedUp(s, ls, acc) ==                    \* one line per phase or row
  IF ls = << >> THEN << >>
  ELSE LET l == Head(ls)
           s1 == Step([s EXCEPT !.nlhead = s.used + 1], l)
           its == acc \o l.n
       IN IF s1.acc # << >> /\ Kind(s.phases[s.ph][1]) \in {"nums", "ints"} THEN JoinedUp(s1, Tail(ls), its)
          ELSE <<IF Kind(s.phases[s.ph][1]) \in {"text", "lines"} THEN l ELSE Line(its)>> \o JoinedUp(s1, Tail(ls), << >>)
Unbroken == JoinedUp(InitState(0), lines, << >>)
HeadOf(u) == CHOOSE h \in 1..Len(u) : Read(0, [u EXCEPT ![1] = Line(<<Whl(h), Whl(ffi)>>)]).err = ""
BreaksFree == done /\ breaks > 0 =>
   LET u == Unbroken
       s == Read(0, [u EXCEPT ![1] = Line(<<Whl(HeadOf(u)), Whl(ffi)>>)])
   IN Len(u) + breaks = Len(lines) /\ \A fd \in FieldNames \ {"NLHEAD"} : Field(s, fd) = Field(st, fd)
\* a truncated file is malformed unless it ends between marks, and so is one with a line twice or a line less in the header
Cut(k) == SubSeq(File, 1, k)
Truncated == done => \A k \in 0..(Len(File) - 1) :
   (Read(0, Cut(k)).err = "") => k >= st.nhead
HeaderExact == done => \A h \in {st.nhead - 1, st.nhead + 1} :
   Read(0, [File EXCEPT ![1] = Line(<<Whl(h), Whl(ffi)>>)]).err # ""
=============================================================================
