------------------------------ MODULE NAFormat ------------------------------
(***************************************************************************)
(* The NASA Ames file formats (Gaines & Hipskind 1.3, the nine indices     *)
(* nappy supports) as a line-by-line reader machine.                       *)
(*                                                                         *)
(* A line is a record                                                      *)
(*    r : the text of the line, surrounding blanks removed                 *)
(*    t : the same without a trailing {annotation}                         *)
(*    n : its blank-separated items, each [s |-> canonical text,           *)
(*        q |-> 0 not a number, 1 a number, 2 an integer, i |-> its value  *)
(*        if that is an integer in 0..10^6, -2 if negative, else -1]       *)
(*                                                                         *)
(* The machine holds a state st; Step(st, line) consumes exactly one line, *)
(* Finish(st) is applied at the end of the file.  The result is either an  *)
(* error or the data set, which Fields(st) presents field by field in the  *)
(* layout a user of the library sees (slowest dimension first), each value *)
(* as a flat sequence of strings with "[" and "]" marking nesting, so that *)
(* any two values can be compared.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

FFIs      == {1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010}
GridFFIs  == {2010, 3010, 4010}            \* fixed bounded dimensions
RowFFIs   == {2110, 2160}                  \* rows (x2, v1..vn), varying number
NIVof(f)  == f \div 1000

\* ------------------------------------------------------------ small helpers
Str(sq)      == [k \in DOMAIN sq |-> sq[k].s]
Open         == <<"[">>
Close        == <<"]">>
FlatList(sq) == Open \o sq \o Close                       \* list of scalars
RECURSIVE CatTo(_, _)
CatTo(sqs, k) == IF k = 0 THEN << >> ELSE CatTo(sqs, k - 1) \o sqs[k]
Cat(sqs)     == CatTo(sqs, Len(sqs))
FlatOf(sqs)  == Open \o Cat(sqs) \o Close                 \* list of flattened things
RECURSIVE ProdTo(_, _)
ProdTo(sq, k) == IF k = 0 THEN 1 ELSE sq[k] * ProdTo(sq, k - 1)
Prod(sq)     == ProdTo(sq, Len(sq))
Rev(sq)      == [k \in DOMAIN sq |-> sq[Len(sq) + 1 - k]]
None         == <<"none">>

\* nest a flat token sequence by the dimensions dims (slowest first)
RECURSIVE Nest(_, _)
Nest(toks, dims) ==
  IF Len(dims) <= 1 THEN FlatList(toks)
  ELSE LET inner == Prod(Tail(dims))
       IN FlatOf([k \in 1..Head(dims) |->
                    Nest(SubSeq(toks, (k - 1) * inner + 1, k * inner), Tail(dims))])

\* ---------------------------------------------------------------- the phases
HeadCommon == << <<"TOP",0>>, <<"ONAME",0>>, <<"ORG",0>>, <<"SNAME",0>>,
                 <<"MNAME",0>>, <<"VOLS",0>>, <<"DATES",0>> >>

AxisPhases(f) ==
  CASE f \in {1001, 1010} -> << <<"DX",0>>, <<"XNAME",0>> >>
    [] f = 1020           -> << <<"DX",0>>, <<"NVPM",0>>, <<"XNAME",0>> >>
    [] f \in GridFFIs     -> << <<"DX",0>>, <<"NX",0>>, <<"NXDEF",0>> >>
                             \o [s \in 1..(NIVof(f) - 1) |-> <<"XDEF",s>>]
                             \o << <<"XNAME",0>> >>
    [] f = 2110           -> << <<"DX",0>>, <<"XNAME",0>> >>
    [] f = 2310           -> << <<"DX",0>>, <<"XNAME",0>> >>
    [] f = 2160           -> << <<"DX",0>>, <<"LENX",0>>, <<"XNAME",0>> >>

VarPhases == << <<"NV",0>>, <<"VSCAL",0>>, <<"VMISS",0>>, <<"VNAME",0>> >>

AuxPhases(f) ==
  CASE f = 1001 -> << >>
    [] f = 2160 -> << <<"NAUXV",0>>, <<"NAUXC",0>>, <<"ASCAL",0>>, <<"AMISS",0>>,
                      <<"LENA",0>>, <<"AMISSC",0>>, <<"ANAME",0>> >>
    [] OTHER    -> << <<"NAUXV",0>>, <<"ASCAL",0>>, <<"AMISS",0>>, <<"ANAME",0>> >>

ComPhases == << <<"NSCOML",0>>, <<"SCOM",0>>, <<"NNCOML",0>>, <<"NCOM",0>> >>

HeadPhases(f) == HeadCommon \o AxisPhases(f) \o VarPhases \o AuxPhases(f) \o ComPhases

\* phases of one mark of the data section
MarkPhases(st) ==
  LET f == st.ffi IN
  CASE f = 1001           -> << <<"REC",0>> >>
    [] f \in {1010, 1020} -> << <<"XA",0>>, <<"V",0>> >>
    [] f \in GridFFIs     -> << <<"XA",0>> >> \o [n \in 1..st.nv |-> <<"VN",n>>]
    [] f = 2110           -> << <<"XA",0>>, <<"ROWS",0>> >>
    [] f = 2160           -> << <<"XT",0>>, <<"A",0>>, <<"AC",0>>, <<"ROWS",0>> >>
    [] f = 2310           -> << <<"XA",0>>, <<"V",0>> >>

\* how a phase takes its items: from the text of one line; as integers or
\* numbers of exactly one line; as numbers over any lines; as n text lines
Kind(p) ==
  CASE p \in {"ONAME","ORG","SNAME","MNAME"}                 -> "text"
    [] p \in {"TOP","VOLS","DATES","NX","NXDEF","NVPM","LENX",
              "NV","NAUXV","NAUXC","NSCOML","NNCOML"}        -> "intline"
    [] p = "DX"                                              -> "numline"
    [] p = "LENA"                                            -> "ints"
    [] p \in {"XNAME","VNAME","ANAME","AMISSC","SCOM","NCOM",
              "XT","AC"}                                     -> "lines"
    [] OTHER                                                 -> "nums"

\* the number of items of a phase
Need(p, idx, st) ==
  CASE p \in {"ONAME","ORG","SNAME","MNAME"}           -> 1
    [] p \in {"TOP","VOLS"}                            -> 2
    [] p = "DATES"                                     -> 6
    [] p = "DX"     -> IF st.ffi \in {2160, 2310} THEN 1 ELSE NIVof(st.ffi)
    [] p \in {"NX","NXDEF"}                            -> NIVof(st.ffi) - 1
    [] p = "XDEF"                                      -> st.nxdef[idx]
    [] p \in {"NVPM","LENX","NV","NAUXV","NAUXC","NSCOML","NNCOML"} -> 1
    [] p = "XNAME"                                     -> NIVof(st.ffi)
    [] p \in {"VSCAL","VMISS","VNAME"}                 -> st.nv
    [] p \in {"ASCAL","AMISS"}                         -> st.nauxv - st.nauxc
    [] p \in {"LENA","AMISSC"}                         -> st.nauxc
    [] p = "ANAME"                                     -> st.nauxv
    [] p = "SCOM"                                      -> st.nscoml
    [] p = "NCOM"                                      -> st.nncoml
    [] p = "REC"                                       -> 1 + st.nv
    [] p = "XA"                                        -> 1 + st.nauxv
    [] p = "A"                                         -> st.nauxv - st.nauxc
    [] p = "AC"                                        -> st.nauxc
    [] p = "XT"                                        -> 1
    [] p = "VN"                                        -> Prod(st.nx)
    [] p = "V"      -> (CASE st.ffi = 1010 -> st.nv
                          [] st.ffi = 1020 -> st.nv * st.nvpm
                          [] st.ffi = 2310 -> st.nv * st.cur.nx)
    [] p = "ROWS"                                      -> st.cur.nx

NoMark == [x |-> "", a |-> << >>, ac |-> << >>, nx |-> 0, rows |-> << >>,
           v |-> << >>]

\* ------------------------------------------------------------- initial state
\* skip is the stated number of lines ahead of the header
InitState(skip) ==
  [err |-> "", used |-> 0, skip |-> skip, nhead |-> skip,
   sect |-> "H", ph |-> 1, phases |-> HeadCommon,
   acc |-> << >>, blank |-> FALSE,
   ffi |-> 0, nlhead |-> 0, nv |-> 0, nauxv |-> 0, nauxc |-> 0,
   nscoml |-> 0, nncoml |-> 0, nvpm |-> 1, nx |-> << >>, nxdef |-> << >>,
   text |-> [ONAME |-> "", ORG |-> "", SNAME |-> "", MNAME |-> ""],
   nums |-> [p \in {"VOLS","DATES","DX","NX","NXDEF","NVPM","LENX","VSCAL",
                    "VMISS","ASCAL","AMISS","LENA"} |-> << >>],
   xdef |-> << >>,
   names |-> [p \in {"XNAME","VNAME","ANAME","AMISSC","SCOM","NCOM"} |-> << >>],
   cur |-> NoMark, marks |-> << >>]

Fail(st, why) == [st EXCEPT !.err = why]

\* --------------------------------------------- completing a phase of the file
\* items: the collected items of the phase (records for numbers, strings for text)
Store(st, p, idx, items) ==
  LET i1 == items[1].i IN
  CASE p = "TOP" ->
         IF items[2].i \notin FFIs THEN Fail(st, "unknown index")
         ELSE [st EXCEPT !.nlhead = i1, !.ffi = items[2].i,
                         !.phases = HeadPhases(items[2].i)]
    [] p \in {"ONAME","ORG","SNAME","MNAME"} -> [st EXCEPT !.text[p] = items[1]]
    [] p \in {"NV","NAUXV","NAUXC","NSCOML","NNCOML"} /\ i1 < 0 -> Fail(st, "bad count")
    [] p = "NV"     -> [st EXCEPT !.nv = i1]
    [] p = "NAUXV"  -> IF i1 < (CASE st.ffi \in RowFFIs -> 1 [] st.ffi = 2310 -> 3 [] OTHER -> 0)
                       THEN Fail(st, "too few auxiliary variables")
                       ELSE [st EXCEPT !.nauxv = i1]
    [] p = "NAUXC"  -> IF i1 >= st.nauxv THEN Fail(st, "too many character variables")
                       ELSE [st EXCEPT !.nauxc = i1]
    [] p = "NSCOML" -> [st EXCEPT !.nscoml = i1]
    [] p = "NNCOML" -> [st EXCEPT !.nncoml = i1]
    [] p = "NVPM"   -> IF i1 < 1 THEN Fail(st, "bad NVPM")
                       ELSE [st EXCEPT !.nvpm = i1, !.nums[p] = Str(items)]
    [] p = "DX" /\ st.ffi = 1020 /\ items[1].i = 0 -> Fail(st, "zero increment")
    [] p \in {"NX","NXDEF"} ->
         IF \E k \in DOMAIN items : items[k].i < 1 THEN Fail(st, "bad dimension")
         ELSE IF p = "NX" THEN [st EXCEPT !.nx = [k \in DOMAIN items |-> items[k].i],
                                          !.nums[p] = Str(items)]
         ELSE [st EXCEPT !.nxdef = [k \in DOMAIN items |-> items[k].i],
                         !.nums[p] = Str(items)]
    [] p = "XDEF"   -> [st EXCEPT !.xdef = Append(@, Str(items))]
    [] p \in {"XNAME","VNAME","ANAME","AMISSC","SCOM","NCOM"} -> [st EXCEPT !.names[p] = items]
    [] p = "REC"    -> [st EXCEPT !.cur.x = items[1].s, !.cur.v = Tail(Str(items))]
    [] p = "XA"     -> [st EXCEPT !.cur.x = items[1].s, !.cur.a = Tail(Str(items)),
                                  !.cur.nx = IF st.ffi \in {2110, 2310} THEN items[2].i ELSE 0,
                                  !.err = IF st.ffi \in {2110, 2310} /\ items[2].i < 0
                                          THEN "bad number of rows" ELSE @]
    [] p = "XT"     -> [st EXCEPT !.cur.x = items[1]]
    [] p = "A"      -> IF i1 < 0 THEN Fail(st, "bad number of rows")
                       ELSE [st EXCEPT !.cur.a = Str(items), !.cur.nx = i1]
    [] p = "AC"     -> [st EXCEPT !.cur.ac = items]
    [] p \in {"V","VN"} -> [st EXCEPT !.cur.v = @ \o Str(items)]
    [] p = "ROWS"   -> [st EXCEPT !.cur.rows = items]
    [] OTHER        -> [st EXCEPT !.nums[p] = Str(items)]

\* go to the next phase that needs something, closing header and marks on the way
RECURSIVE Advance(_)
Advance(st) ==
  IF st.err # "" THEN st
  ELSE IF st.ph <= Len(st.phases) THEN
         LET p == st.phases[st.ph]
         IN IF Need(p[1], p[2], st) > 0 THEN st
            ELSE Advance([Store(st, p[1], p[2], << >>) EXCEPT !.ph = @ + 1])
  ELSE IF st.sect = "H" THEN
         IF st.nlhead # st.used - st.skip THEN Fail(st, "header length")
         ELSE LET s1 == [st EXCEPT !.sect = "D", !.nhead = st.used]
              IN [s1 EXCEPT !.phases = MarkPhases(s1), !.ph = 1]
  ELSE Advance([st EXCEPT !.marks = Append(@, st.cur), !.cur = NoMark, !.ph = 1])

Complete(st, items) ==
  LET p == st.phases[st.ph]
      s1 == Store(st, p[1], p[2], items)
  IN Advance([s1 EXCEPT !.acc = << >>, !.ph = @ + 1])

\* ---------------------------------------------------------- consuming a line
Consume(st, line) ==
  LET p == st.phases[st.ph][1]
      need == Need(p, st.phases[st.ph][2], st)
      k == Kind(p)
      got == st.acc \o line.n
      AllNum(sq) == \A j \in DOMAIN sq : sq[j].q >= 1
      AllInt(sq) == \A j \in DOMAIN sq : sq[j].q = 2
  IN CASE k = "text" -> Complete(st, <<line.t>>)
       [] k \in {"intline", "numline"} ->
            IF Len(line.n) # need THEN Fail(st, "number of items")
            ELSE IF ~AllNum(line.n) \/ (k = "intline" /\ ~AllInt(line.n))
                 THEN Fail(st, "not a number")
            ELSE Complete(st, line.n)
       [] k \in {"nums", "ints"} /\ p # "ROWS" ->
            IF Len(got) > need THEN Fail(st, "too many items")
            ELSE IF ~AllNum(line.n) \/ (k = "ints" /\ ~AllInt(line.n))
                 THEN Fail(st, "not a number")
            ELSE IF Len(got) < need THEN [st EXCEPT !.acc = got]
            ELSE Complete(st, got)
       [] p = "ROWS" ->                \* need rows of 1 + NV numbers, each over any lines
            LET w    == 1 + st.nv
                done == st.cur.rows
            IN IF Len(got) > w THEN Fail(st, "too many items")
               ELSE IF ~AllNum(line.n) THEN Fail(st, "not a number")
               ELSE IF Len(got) < w THEN [st EXCEPT !.acc = got]
               ELSE LET rs == Append(done, Str(got))
                    IN IF Len(rs) < need
                       THEN [st EXCEPT !.acc = << >>, !.cur.rows = rs]
                       ELSE Complete(st, rs)
       [] k = "lines" ->
            LET ls == Append(st.acc, IF p \in {"SCOM", "NCOM"} THEN line.r ELSE line.t)
            IN IF Len(ls) < need THEN [st EXCEPT !.acc = ls]
               ELSE Complete(st, ls)

Step(st, line) ==
  LET s1 == [st EXCEPT !.used = @ + 1] IN
  IF st.err # "" THEN st
  ELSE IF st.used < st.skip THEN s1
  ELSE IF st.sect = "H" THEN Consume(s1, line)
  ELSE IF line.r = "" THEN [s1 EXCEPT !.blank = TRUE]
  ELSE IF st.blank THEN Fail(s1, "blank line inside data")
  ELSE Consume(s1, line)

Finish(st) ==
  IF st.err # "" THEN st
  ELSE IF st.sect = "H" THEN Fail(st, "file ends inside header")
  ELSE IF st.ph # 1 \/ st.acc # << >> THEN Fail(st, "file ends inside a record")
  ELSE st

RECURSIVE ReadTo(_, _, _)
ReadTo(skip, lines, k) ==
  IF k = 0 THEN InitState(skip) ELSE Step(ReadTo(skip, lines, k - 1), lines[k])
Read(skip, lines) == Finish(ReadTo(skip, lines, Len(lines)))

\* ---------------------------------------- the data set as the user sees it
\* V(n) for mark m as a flattened (nested) value
VOf(st, n, m) ==
  LET c == st.marks[m]
      f == st.ffi
      size == Prod(st.nx)
  IN CASE f \in {1001, 1010} -> <<c.v[n]>>
       [] f = 1020      -> SubSeq(c.v, (n - 1) * st.nvpm + 1, n * st.nvpm)
       [] f \in GridFFIs -> Nest(SubSeq(c.v, (n - 1) * size + 1, n * size), Rev(st.nx))
       [] f \in RowFFIs -> FlatList([k \in DOMAIN c.rows |-> c.rows[k][n + 1]])
       [] f = 2310      -> FlatList(SubSeq(c.v, (n - 1) * c.nx + 1, n * c.nx))

XOf(st) ==
  LET f == st.ffi
      xs == [m \in DOMAIN st.marks |-> st.marks[m].x]
  IN CASE f \in {1001, 1010, 1020} -> FlatList(xs)
       [] f \in GridFFIs ->
            FlatOf(<<FlatList(xs)>> \o
                   [s \in 1..(NIVof(f) - 1) |-> FlatList(st.xdef[NIVof(f) - s])])
       [] f \in RowFFIs ->
            FlatOf([m \in DOMAIN st.marks |->
                      FlatOf(<< <<xs[m]>>,
                                FlatList([k \in DOMAIN st.marks[m].rows |->
                                            st.marks[m].rows[k][1]]) >>)])
       [] f = 2310 ->
            FlatOf([m \in DOMAIN st.marks |->
                      FlatOf(<< <<xs[m]>>, FlatList(<<st.marks[m].a[2]>>) >>)])

Num2(k) == ToString(k)
NXOf(st) ==
  IF st.ffi \in GridFFIs THEN FlatList(Rev(st.nums["NX"]))
  ELSE IF st.ffi \in RowFFIs \cup {2310}
       THEN FlatList([m \in DOMAIN st.marks |-> ToString(st.marks[m].nx)])
  ELSE None

HasAux(st) == st.ffi # 1001
FieldNames == {"FFI","NIV","ONAME","ORG","SNAME","MNAME","VOLS","DATE","RDATE","DX",
               "NX","NXDEF","NVPM","LENX","X","XNAME","NV","VSCAL","VMISS","VNAME",
               "NAUXV","NAUXC","ASCAL","AMISS","LENA","ANAME","A","SCOM","NCOM",
               "NSCOML","NNCOML","NLHEAD","V"}
Field(st, fd) ==
  LET f == st.ffi
      M == Len(st.marks)
      aux == HasAux(st) /\ st.nauxv > 0
  IN CASE fd = "FFI"    -> <<ToString(f)>>
       [] fd = "NIV"    -> <<ToString(NIVof(f))>>
       [] fd \in {"ONAME","ORG","SNAME","MNAME"} -> <<st.text[fd]>>
       [] fd = "VOLS"   -> st.nums["VOLS"]
       [] fd = "DATE"   -> FlatList(SubSeq(st.nums["DATES"], 1, 3))
       [] fd = "RDATE"  -> FlatList(SubSeq(st.nums["DATES"], 4, 6))
       [] fd = "DX"     -> FlatList(Rev(st.nums["DX"]))
       [] fd = "NX"     -> NXOf(st)
       [] fd = "NXDEF"  -> IF f \in GridFFIs THEN FlatList(Rev(st.nums["NXDEF"])) ELSE None
       [] fd = "NVPM"   -> IF f = 1020 THEN st.nums["NVPM"] ELSE None
       [] fd = "LENX"   -> IF f = 2160 THEN st.nums["LENX"] ELSE None
       [] fd = "X"      -> XOf(st)
       [] fd = "XNAME"  -> FlatList(Rev(st.names["XNAME"]))
       [] fd = "NV"     -> <<ToString(st.nv)>>
       [] fd = "VSCAL"  -> FlatList(st.nums["VSCAL"])
       [] fd = "VMISS"  -> FlatList(st.nums["VMISS"])
       [] fd = "VNAME"  -> FlatList(st.names["VNAME"])
       [] fd = "NAUXV"  -> IF HasAux(st) THEN <<ToString(st.nauxv)>> ELSE None
       [] fd = "NAUXC"  -> IF f = 2160 THEN <<ToString(st.nauxc)>> ELSE None
       [] fd = "ASCAL"  -> IF aux THEN FlatList(st.nums["ASCAL"]) ELSE None
       [] fd = "AMISS"  -> IF aux THEN FlatList(st.nums["AMISS"] \o st.names["AMISSC"]) ELSE None
       [] fd = "LENA"   -> IF f = 2160
                           THEN FlatList([k \in 1..(st.nauxv - st.nauxc) |-> "none"]
                                         \o st.nums["LENA"]) ELSE None
       [] fd = "ANAME"  -> IF aux THEN FlatList(st.names["ANAME"]) ELSE None
       [] fd = "A"      -> IF aux
                           THEN FlatOf([a \in 1..st.nauxv |->
                                  FlatList([m \in 1..M |->
                                     LET c == st.marks[m]
                                     IN (c.a \o c.ac)[a]])]) ELSE None
       [] fd = "V"      -> FlatOf([n \in 1..st.nv |->
                                  FlatOf([m \in 1..M |-> VOf(st, n, m)])])
       [] fd = "SCOM"   -> FlatList(st.names["SCOM"])
       [] fd = "NCOM"   -> FlatList(st.names["NCOM"])
       [] fd = "NSCOML" -> <<ToString(st.nscoml)>>
       [] fd = "NNCOML" -> <<ToString(st.nncoml)>>
       [] fd = "NLHEAD" -> <<ToString(st.nhead)>>

\* fields in which two data sets, given as functions field -> flat value, differ
Diff(st, given) == {fd \in DOMAIN given : Field(st, fd) # given[fd]}
=============================================================================
