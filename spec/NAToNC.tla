-------------------------------- MODULE NAToNC --------------------------------
(***************************************************************************)
(* Converting a NASA Ames file to NetCDF or xarray objects.  The file is   *)
(* read by the machine of NAFormat (st); the converted content is judged   *)
(* against it.                                                             *)
(*                                                                         *)
(* Options o:                                                              *)
(*   vars, aux  [all, sel]: sel a Seq of [idx (-1 if by name), name]       *)
(*   rename     Seq of [from, to]                                          *)
(*   gatts      Seq of [k, v]: global attributes asked for, v a Seq        *)
(*   tunits     time units supplied ("" if none)                           *)
(*   dict       whether the source is given as a dictionary, not a file      *)
(*   timelike   units of the file that are recognised as time units        *)
(* Converted content: out.vars a Seq of                                    *)
(*   [name, dims, coords, cunits, val, miss, fill, long, title, units,     *)
(*    num, anum], and out.gatts a Seq of [k, v].                           *)
(***************************************************************************)
EXTENDS NCToNA, NameSplit, Decimal

Convertible == {1001, 1010, 1020, 2010, 3010, 4010}

\* ------------------------------------------------------------------- names
Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCh(ch) == IF \E k \in 1..26 : Ch(Uppers, k) = ch
               THEN Ch(Lowers, CHOOSE k \in 1..26 : Ch(Uppers, k) = ch) ELSE ch
RECURSIVE LowerTo(_, _)
LowerTo(s, k) == IF k = 0 THEN "" ELSE LowerTo(s, k - 1) \o LowerCh(Ch(s, k))
Lower(s) == LowerTo(s, Len(s))
RECURSIVE BlanksTo(_, _)
BlanksTo(s, k) == IF k = 0 THEN "" ELSE BlanksTo(s, k - 1) \o (IF Ch(s, k) = " " THEN "_" ELSE Ch(s, k))
Unsafe == {"/", " ", "\t", "[", "(", ")", "]", "=", "+", "-", "?", "#", "~", "@", "&", "$", "%",
           "!", "*", "{", "}", "^"}
Odd == {",", ".", ":", ";", "<", ">", "|", "`", "'", "\"", "\\"}
RECURSIVE SafeTo(_, _)                   \* runs of unsafe characters as one underscore
SafeTo(s, k) ==
  IF k = 0 THEN ""
  ELSE IF k = 1 /\ Ch(s, 1) \in Odd THEN "_"
  ELSE IF Ch(s, k) \notin Unsafe THEN SafeTo(s, k - 1) \o Ch(s, k)
  ELSE IF k > 1 /\ Ch(s, k - 1) \in Unsafe THEN SafeTo(s, k - 1)
  ELSE SafeTo(s, k - 1) \o "_"
MaxId == 64
ConvName(s, long) == IF Len(s) \in 1..(MaxId - 1) THEN Lower(SafeTo(s, Len(s))) ELSE long

AxisTypes == <<"longitude", "latitude", "level", "time">>
AxisName(st, d) ==
  LET n == ConvName(SplitName(Rev(st.names["XNAME"])[d], "(", ")")[1], "naIndVariable_" \o ToString(d - 1))
      hits == {k \in DOMAIN AxisTypes : Has(n, AxisTypes[k])}
  IN IF hits = {} THEN n ELSE AxisTypes[Max(hits)]
AxisUnits(st, d) == SplitName(Rev(st.names["XNAME"])[d], "(", ")")[2]
Numberless(s, base) ==                   \* base with a number appended
  \E k \in 2..9 : s = base \o "_" \o ToString(k)
\* axes whose names become the same are told apart by numbers
Meets(s, base) == s = base \/ Numberless(s, base)      \* something named after base might be called s
AxisTwin(st, d) == \E i \in 1..NIVof(st.ffi) : i # d /\ Meets(AxisName(st, d), AxisName(st, i))
AxisNamed(st, d, s) == s = AxisName(st, d) \/ (AxisTwin(st, d) /\ Numberless(s, AxisName(st, d)))
IsTime(st, d) == AxisName(st, d) = "time"

\* -------------------------------------------------------- axes written out
Xs(st) == [m \in DOMAIN st.marks |-> st.marks[m].x]
Stepped(x, dx, n) == [k \in 1..n |-> Show(Add(Dec(x), Mul(<<k - 1, 0>>, Rounded(dx))))]
Axis(st, d) ==
  LET s  == NIVof(st.ffi) - d + 1
      dx == st.nums["DX"][s]
  IN IF d > 1 THEN (IF st.nxdef[s] = st.nx[s] THEN [k \in 1..st.nx[s] |-> Same(st.xdef[s][k])]
                    ELSE Stepped(st.xdef[s][1], dx, st.nx[s]))
     ELSE IF st.ffi = 1020 THEN Cat([m \in DOMAIN st.marks |-> Stepped(st.marks[m].x, dx, st.nvpm)])
     ELSE [m \in DOMAIN st.marks |-> Same(st.marks[m].x)]
MarkAxis(st) == [m \in DOMAIN st.marks |-> Same(st.marks[m].x)]

\* ---------------------------------------------------------- the variables
Prim(st, k) ==
  LET nu == SplitName(st.names["VNAME"][k], "(", ")")
  IN [what |-> "V", k |-> k, raw |-> st.names["VNAME"][k], name |-> nu[1], units |-> nu[2],
      miss |-> st.nums["VMISS"][k], scal |-> st.nums["VSCAL"][k],
      val |-> Leaves(Cat([m \in DOMAIN st.marks |-> VOf(st, k, m)])), long |-> "naVariable_" \o ToString(k - 1),
      coords |-> [d \in 1..NIVof(st.ffi) |-> Axis(st, d)],
      dims |-> [d \in 1..NIVof(st.ffi) |-> AxisName(st, d)], marksdim |-> FALSE]
Auxi(st, k) ==
  LET nu == SplitName(st.names["ANAME"][k], "(", ")")
  IN [what |-> "A", k |-> k, raw |-> st.names["ANAME"][k], name |-> nu[1], units |-> nu[2],
      miss |-> st.nums["AMISS"][k], scal |-> st.nums["ASCAL"][k],
      val |-> [m \in DOMAIN st.marks |-> st.marks[m].a[k]], long |-> "naAuxVariable_" \o ToString(k - 1),
      coords |-> <<MarkAxis(st)>>, dims |-> <<AxisName(st, 1)>>, marksdim |-> st.ffi = 1020]

\* the indices selected, 0 for an item that names nothing
Chosen(sel, n, names) ==
  IF sel.all THEN [k \in 1..n |-> k]
  ELSE [j \in DOMAIN sel.sel |->
          LET it == sel.sel[j]
              hits == {k \in DOMAIN names : names[k] = it.name}
          IN IF it.idx >= 0 THEN (IF it.idx < n THEN it.idx + 1 ELSE 0)
             ELSE IF hits = {} THEN 0 ELSE Min(hits)]
Selection(st, o) ==
  LET v == Chosen(o.vars, st.nv, st.names["VNAME"])
      a == Chosen(o.aux, IF HasAux(st) THEN st.nauxv ELSE 0, st.names["ANAME"])
  IN [known |-> 0 \notin Range(v) /\ (~HasAux(st) \/ st.nauxv = 0 \/ 0 \notin Range(a)),
      vars |-> [j \in DOMAIN v |-> <<"V", v[j]>>] \o
               (IF HasAux(st) /\ st.nauxv > 0 THEN [j \in DOMAIN a |-> <<"A", a[j]>>] ELSE << >>)]
Rec(st, x) == IF x[1] = "V" THEN Prim(st, x[2]) ELSE Auxi(st, x[2])
Accepted(st, o) == st.ffi \in Convertible /\ Selection(st, o).known

\* the name and title of a converted variable
Renamed(o, n) == {j \in DOMAIN o.rename : Lower(o.rename[j].from) = n}
TitleOf(o, e) == LET n == ConvName(e.name, e.long)
                     r == Renamed(o, Lower(n))
                 IN IF r = {} THEN n ELSE o.rename[CHOOSE j \in r : TRUE].to
IdOf(o, e) == BlanksTo(Lower(TitleOf(o, e)), Len(TitleOf(o, e)))

IsIt(w, e) == IF e.what = "V" THEN w.num = e.k - 1 /\ w.anum = -1 ELSE w.anum = e.k - 1 /\ w.num = -1

\* ------------------------------------------------------------- the clauses
Missing(e) == [j \in DOMAIN e.val |-> IF e.val[j] = e.miss THEN 1 ELSE 0]
Scaled(e)  == [j \in DOMAIN e.val |-> IF e.val[j] = e.miss THEN "none" ELSE Times(e.val[j], e.scal)]
ValuesRight(st, e, w) ==
  (IF [j \in DOMAIN w.val |-> IF w.miss[j] = 1 THEN "none" ELSE Same(w.val[j])] = Scaled(e) THEN {} ELSE {"values"})
  \cup (IF Len(w.coords) = Len(e.coords)
           /\ \A d \in DOMAIN e.coords : [j \in DOMAIN w.coords[d] |-> Same(w.coords[d][j])] = e.coords[d]
        THEN {} ELSE {"coordinates"})
  \cup (IF Len(w.dims) = Len(e.dims)
           /\ (e.marksdim \/ \A d \in DOMAIN e.dims : AxisNamed(st, d, w.dims[d]))
           /\ \A d, f \in DOMAIN w.dims : d = f \/ w.dims[d] # w.dims[f]
        THEN {} ELSE {"dimensions"})
MissingRight2(e, w) ==
  LET clash == \E j \in DOMAIN e.val : e.val[j] # e.miss /\ Times(e.val[j], e.scal) = Same(e.miss)
  IN (IF w.miss = Missing(e) THEN {} ELSE {"missing positions"})
     \cup (IF Same(w.fill) = Same(e.miss) \/ clash THEN {} ELSE {"missing value"})
UnitsOf(u) == IF u = "none" THEN "" ELSE u
AttrsRight(o, e, w) ==
  (IF w.long = TitleOf(o, e) /\ w.title = TitleOf(o, e) THEN {} ELSE {"title"})
  \cup (IF w.units = UnitsOf(e.units) THEN {} ELSE {"units"})
NameRight(st, o, e, w, es) ==
  LET id == IdOf(o, e)
      alone == /\ \A d \in 1..NIVof(st.ffi) : ~Meets(id, AxisName(st, d))
               /\ st.ffi = 1020 => ~Meets(id, AxisName(st, 1) \o "_marks")
               /\ Cardinality({j \in DOMAIN es : Meets(id, IdOf(o, es[j]))}) = 1
  IN IF w.name = id \/ (~alone /\ Numberless(w.name, id)) THEN {} ELSE {"name"}

\* every selected variable exactly once, under distinct names
Content(st, o, out, judge) ==
  LET es == [j \in DOMAIN Selection(st, o).vars |-> Rec(st, Selection(st, o).vars[j])]
      hit(e) == {j \in DOMAIN out.vars : IsIt(out.vars[j], e)}
      per(e) == LET w == out.vars[CHOOSE j \in hit(e) : TRUE] IN
                (IF "values" \in judge THEN ValuesRight(st, e, w) ELSE {})
                \cup (IF "missing" \in judge THEN MissingRight2(e, w) ELSE {})
                \cup (IF "attrs" \in judge THEN AttrsRight(o, e, w) ELSE {})
                \cup (IF "names" \in judge THEN NameRight(st, o, e, w, es) ELSE {})
  IN (IF Len(out.vars) = Len(es) THEN {} ELSE {"number of variables"})
     \cup (IF "distinct" \notin judge \/ Cardinality({out.vars[j].name : j \in DOMAIN out.vars}) = Len(out.vars) THEN {} ELSE {"names are not distinct"})
     \cup {es[j].raw \o ": converted " \o ToString(Cardinality(hit(es[j]))) \o " times" :
              j \in {i \in DOMAIN es : Cardinality(hit(es[i])) # 1}}
     \cup UNION {{es[j].raw \o ": " \o x : x \in per(es[j])} : j \in {i \in DOMAIN es : hit(es[i]) # {}}}

\* ------------------------------------------------------ global attributes
Mapped == {"no_of_nasa_ames_header_lines", "file_format_index", "institution", "source", "title",
           "file_number_in_set", "total_files_in_set", "history", "first_valid_date_of_data", "comment"}
Att(out, k) == {j \in DOMAIN out.gatts : out.gatts[j].k = k}
AttIs(out, k, v) == Cardinality(Att(out, k)) = 1 /\ out.gatts[CHOOSE j \in Att(out, k) : TRUE].v = v
Pad(n, s) == IF Len(s) >= n THEN s ELSE "0000" \o s
LastN(n, s) == SubSeq(s, Len(s) - n + 1, Len(s))
DateText(d) == LastN(4, Pad(4, d[1])) \o "-" \o LastN(2, Pad(2, d[2])) \o "-" \o LastN(2, Pad(2, d[3]))
\* the markers of a section are not repeated within it
AddedMarks == {"=== Additional Variable Attributes defined in the source file ===",
               "=== Additional Global Attributes defined in the source file ==="}
SMarks == AddedMarks \cup {"==== Special Comments follow ====", "==== Special Comments end ===="}
NMarks == AddedMarks \cup {"==== Normal Comments follow ====", "==== Normal Comments end ====",
                           "=== Data Section begins on the next line ==="}
Spoken(ls, marks) == SelectSeq(ls, LAMBDA s : s # "" /\ s \notin marks)
CommentLines(st) ==
  (IF st.nscoml > 0 THEN <<"==== Special Comments follow ====">> \o Spoken(st.names["SCOM"], SMarks)
                         \o <<"==== Special Comments end ====">> ELSE << >>)
  \o (IF st.nncoml > 0 THEN <<"==== Normal Comments follow ====">> \o Spoken(st.names["NCOM"], NMarks)
                            \o <<"==== Normal Comments end ====">> ELSE << >>)
GlobalsHeld(st, o, out) ==
  LET want == <<
        <<"no_of_nasa_ames_header_lines", <<ToString(st.nhead)>>>>,
        <<"file_format_index", <<ToString(st.ffi)>>>>,
        <<"institution", <<st.text["ONAME"] \o " (ONAME from NASA Ames file); " \o st.text["ORG"]
                            \o " (ORG from NASA Ames file).">>>>,
        <<"source", <<st.text["SNAME"]>>>>, <<"title", <<st.text["MNAME"]>>>>,
        <<"file_number_in_set", <<st.nums["VOLS"][1]>>>>, <<"total_files_in_set", <<st.nums["VOLS"][2]>>>>,
        <<"first_valid_date_of_data", SubSeq(st.nums["DATES"], 1, 3)>> >>
      asked == {j \in DOMAIN o.gatts : o.gatts[j].k \notin Mapped}
      \* a dictionary has no layout of its own
      first == IF o.dict THEN 2 ELSE 1
  IN {"attribute " \o want[j][1] : j \in {i \in first..Len(want) : ~AttIs(out, want[i][1], want[i][2])}}
     \cup {"attribute asked for: " \o o.gatts[j].k : j \in {i \in asked : ~AttIs(out, o.gatts[i].k, o.gatts[i].v)}}
     \cup (IF \E j \in Att(out, "comment") : Spoken(out.gatts[j].lines, {}) = CommentLines(st)
           THEN {} ELSE {"comments"})
AttNames(out) == {out.gatts[j].k : j \in DOMAIN out.gatts}
AskedNames(o) == {o.gatts[j].k : j \in DOMAIN o.gatts} \ Mapped
GlobalsRight(st, o, out) ==
  GlobalsHeld(st, o, out)
  \cup (IF AttNames(out) = Mapped \cup AskedNames(o) THEN {} ELSE {"set of attributes"})
\* after several conversions into one target: the newest wins
GlobalsKept(hist, sts, out) ==
  LET n == Len(hist)
      later(j) == UNION {AskedNames(hist[i].opts) : i \in (j + 1)..n}
      asked(j) == {g \in DOMAIN hist[j].opts.gatts : hist[j].opts.gatts[g].k \notin (Mapped \cup later(j))}
  IN GlobalsHeld(sts[hist[n].src], hist[n].opts, out)
     \cup UNION {{"attribute of conversion " \o ToString(j) \o ": " \o hist[j].opts.gatts[g].k :
                    g \in {h \in asked(j) : ~AttIs(out, hist[j].opts.gatts[h].k, hist[j].opts.gatts[h].v)}} : j \in 1..n}
     \cup (IF AttNames(out) = Mapped \cup UNION {AskedNames(hist[j].opts) : j \in 1..n} THEN {} ELSE {"set of attributes"})
DatesRight(st, out) ==
  (IF AttIs(out, "first_valid_date_of_data", SubSeq(st.nums["DATES"], 1, 3)) THEN {} ELSE {"start date"})
  \cup (IF \E j \in Att(out, "history") :
             Has(out.gatts[j].v[1], DateText(SubSeq(st.nums["DATES"], 4, 6)) \o " - NASA Ames File created/revised.")
        THEN {} ELSE {"revision date"})

\* ------------------------------------------------------------- axis units
WantUnits(st, o, d) ==
  LET u == AxisUnits(st, d) own == IF u \in {"none", ""} THEN "Not known" ELSE u IN
  IF IsTime(st, d) /\ u \notin Range(o.timelike) /\ o.tunits # "" THEN o.tunits ELSE own
AxisUnitsRight(st, o, out) ==
  UNION {LET w == out.vars[j] IN
         {"units of axis " \o w.dims[d] : d \in {i \in DOMAIN w.dims :
             w.num >= 0 /\ w.cunits[i] # WantUnits(st, o, i)}} : j \in DOMAIN out.vars}
=============================================================================
