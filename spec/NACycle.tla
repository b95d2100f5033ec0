------------------------------- MODULE NACycle -------------------------------
(***************************************************************************)
(* A NASA Ames file converted to NetCDF and back.  st is the file as the   *)
(* machine of NAFormat reads it, r the file that came back; times is a Seq *)
(* of [units, unit, ref], the time units of the file that are recognised.  *)
(***************************************************************************)
EXTENDS NAToNC

Cyclic == {1001, 1010, 2010, 3010, 4010}

\* the names and units after the way through NetCDF
AxisText(st, d) ==
  LET x == Rev(st.names["XNAME"])[d] IN
  Squeeze(IF AxisUnits(st, d) \in {"none", ""} THEN x \o " (Not known)" ELSE x)
VarText(e) == LET n == ConvName(e.name, e.long) IN Squeeze(IF UnitsOf(e.units) = "" THEN n ELSE n \o " (" \o e.units \o ")")

\* every variable of the file, in order
Items(st) == [k \in 1..st.nv |-> Prim(st, k)]
             \o (IF HasAux(st) /\ st.nauxv > 0 THEN [k \in 1..st.nauxv |-> Auxi(st, k)] ELSE << >>)
\* is s a subsequence of t (taking the first match each time)
RECURSIVE Within(_, _)
Within(s, t) == IF s = << >> THEN TRUE ELSE IF t = << >> THEN FALSE
                ELSE IF Head(s) = Head(t) THEN Within(Tail(s), Tail(t)) ELSE Within(s, Tail(t))

RecognisedTime(st, times) == \E t \in DOMAIN times : times[t].units = AxisUnits(st, 1)
DateWanted(st, times) ==
  IF ~RecognisedTime(st, times) THEN SubSeq(st.nums["DATES"], 1, 3)
  ELSE LET t == times[CHOOSE i \in DOMAIN times : times[i].units = AxisUnits(st, 1)]
           q == Mul(Dec(st.marks[1].x), <<8, 0>>)
       IN IF q[2] < 0 \/ q[1] < 0 THEN << >>                           \* not decided
          ELSE LET d == DateAfter("standard", t.unit, t.ref, q[1] * Pow10(q[2])) IN [k \in 1..3 |-> ToString(d[k])]

Cycled(st, r, times) ==
  LET want == Items(st)
      got  == Items(r)
      n    == NIVof(st.ffi)
      clash(e) == \E k \in DOMAIN e.val : e.val[k] # e.miss /\ Times(e.val[k], e.scal) = Same(e.miss)
      shown(e) == [k \in DOMAIN e.val |-> IF e.val[k] = e.miss THEN "none" ELSE Same(e.val[k])]
      date == DateWanted(st, times)
  IN IF NIVof(r.ffi) # n THEN {"number of dimensions"}
     ELSE (IF r.ffi = Standard(n, HasAux(st) /\ st.nauxv > 0 /\ n > 1) THEN {} ELSE {"index"})
     \cup {"axis " \o ToString(d) : d \in {i \in 1..n : Axis(st, i) # Axis(r, i)}}
     \cup {"axis name " \o ToString(d) : d \in {i \in 1..n : Squeeze(Rev(r.names["XNAME"])[i]) # AxisText(st, i)}}
     \cup (IF Len(got) # Len(want) \/ (n > 1 /\ r.nv # st.nv) THEN {"number of variables"}
           ELSE UNION {LET e == want[j] w == got[j] IN
                  (IF Squeeze(w.raw) = VarText(e) THEN {} ELSE {e.raw \o ": name"})
                  \cup (IF shown(w) = Scaled(e) THEN {} ELSE {e.raw \o ": values"})
                  \cup (IF Same(w.miss) = Same(e.miss) \/ clash(e) THEN {} ELSE {e.raw \o ": missing value"})
                  \cup (IF w.scal = "1" THEN {} ELSE {e.raw \o ": scale factor"}) : j \in DOMAIN want})
     \cup {"header item " \o x : x \in {y \in {"ONAME", "SNAME", "MNAME"} : st.text[y] # r.text[y]}}
     \cup (IF date = << >> \/ SubSeq(r.nums["DATES"], 1, 3) = date THEN {} ELSE {"start date"})
     \cup (IF Within(Spoken(st.names["SCOM"], SMarks), r.names["SCOM"]) THEN {} ELSE {"special comments"})
     \cup (IF Within(Spoken(st.names["NCOM"], NMarks), r.names["NCOM"]) THEN {} ELSE {"normal comments"})
=============================================================================
