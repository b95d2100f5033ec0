------------------------------- MODULE NCHeader -------------------------------
(***************************************************************************)
(* Where the attributes of a gridded source go in the header of a file.    *)
(* src.gatts is a Seq of [k, text, lines]: text tells whether the value is *)
(* text, lines are its lines (blank ones included, without blanks around); *)
(* a variable has attrs, a Seq of the same records with text TRUE for      *)
(* values that are recorded.  Configured values win: conf is a function    *)
(* from header items to text.                                              *)
(***************************************************************************)
EXTENDS NCToNA

NotBlank(ls) == SelectSeq(ls, LAMBDA s : s # "")
RECURSIVE Joined(_)
Joined(ls) == IF ls = << >> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "  " \o Joined(Tail(ls))
OneLine(ls) == Squeeze(Trim(Joined(ls)))

\* the lines of s appear in t one after the other
SameLine(a, b) == Squeeze(Trim(a)) = Squeeze(Trim(b))
InRow(s, t) == \E k \in 0..(Len(t) - Len(s)) : \A i \in DOMAIN s : SameLine(t[k + i], s[i])
\* the lines that show an attribute: its key with the first line, then the rest
Shows(g, sep) == NotBlank(<<Trim(g.k \o sep \o (IF g.lines = << >> THEN "" ELSE g.lines[1]))>>
                          \o SubSeq(g.lines, 2, Len(g.lines)))

HeaderItem == [title |-> "MNAME", source |-> "SNAME"]
Dropped == {"file_format_index", "no_of_nasa_ames_header_lines", "total_files_in_set", "file_number_in_set",
            "first_valid_date_of_data"}
Att2(src, k) == {j \in DOMAIN src.gatts : src.gatts[j].k = k}
Given(src, k) == IF Att2(src, k) = {} THEN "None" ELSE OneLine(src.gatts[CHOOSE j \in Att2(src, k) : TRUE].lines)

NumberGiven(src, k) == \E j \in Att2(src, k) : ~src.gatts[j].text

\* institution "x (ONAME from NASA Ames file); y (ORG from NASA Ames file)." names both
RECURSIVE Split3(_, _, _)
Split3(s, t, k) == IF k + Len(t) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, k, k + Len(t) - 1) = t THEN k ELSE Split3(s, t, k + 1)
FromNA == " (ONAME from NASA Ames file); "
ToNA   == " (ORG from NASA Ames file)."
Oname(src) == LET v == Given(src, "institution") p == Split3(v, FromNA, 1)
              IN IF p > 0 /\ Has(v, ToNA) THEN Trim(SubSeq(v, 1, p - 1)) ELSE v
Org(src) == LET v == Given(src, "institution") p == Split3(v, FromNA, 1)
            IN IF p > 0 /\ Has(v, ToNA) THEN Trim(SubSeq(v, p + Len(FromNA), Split3(v, ToNA, 1) - 1)) ELSE v

\* the four text items, from lines 2 to 5 of the file
ItemsRight(src, lines, conf) ==
  LET want == [ONAME |-> Oname(src), ORG |-> Org(src), SNAME |-> Given(src, "source"), MNAME |-> Given(src, "title")]
      at   == [ONAME |-> 2, ORG |-> 3, SNAME |-> 4, MNAME |-> 5]
      \* a number given for one of them may be left out
      numeric == [ONAME |-> NumberGiven(src, "institution"), ORG |-> NumberGiven(src, "institution"), SNAME |-> NumberGiven(src, "source"), MNAME |-> NumberGiven(src, "title")]
  IN {i \in DOMAIN want : /\ Squeeze(lines[at[i]].r) # Squeeze(IF i \in DOMAIN conf THEN conf[i] ELSE want[i])
                          /\ ~(i \notin DOMAIN conf /\ numeric[i] /\ lines[at[i]].r = "None")}

\* every other text attribute is shown in the normal comments
CommentsRight(src, st) ==
  LET ls == NotBlank(st.names["NCOM"])
      all == NotBlank(st.names["SCOM"]) \o ls
      other == {j \in DOMAIN src.gatts : src.gatts[j].text
                  /\ src.gatts[j].k \notin ({"title", "source", "institution"} \cup Dropped)}
      held(g) == IF g.k \in {"comment", "history"} THEN \A i \in DOMAIN NotBlank(g.lines) :
                        \E j \in DOMAIN all : Has(Squeeze(all[j]), Squeeze(NotBlank(g.lines)[i]))
                 ELSE InRow(Shows(g, ":   "), ls)
      inorder(g) == g.k # "comment" \/ InRow([i \in DOMAIN NotBlank(g.lines) |-> NotBlank(g.lines)[i]], ls)
  IN {"attribute " \o src.gatts[j].k : j \in {i \in other : ~held(src.gatts[i])}}
     \cup {"order of attribute " \o src.gatts[j].k : j \in {i \in other : ~inorder(src.gatts[i])}}

\* the attributes of the variables of a file follow the line that names the variable
Heading(v) == "Variable " \o v.id \o ": " \o BestName(v)
VarAttsRight(src, st, g) ==
  LET ls == NotBlank(st.names["SCOM"])
      heads(v) == {j \in DOMAIN ls : Squeeze(ls[j]) = Squeeze(Heading(v))}
      shown(v, a) == \E h \in heads(v) : \E e \in h..Len(ls) :
                        /\ InRow(Shows(a, " = "), SubSeq(ls, h + 1, e))
                        /\ \A w \in DOMAIN src.vars : \A j \in (h + 1)..e : Squeeze(ls[j]) # Squeeze(Heading(src.vars[w]))
  IN UNION {{src.vars[v].id \o ":" \o src.vars[v].attrs[a].k :
               a \in {i \in DOMAIN src.vars[v].attrs : src.vars[v].attrs[i].text /\ ~shown(src.vars[v], src.vars[v].attrs[i])}}
            : v \in g.v}

\* those of the single values follow the line that names the value, in the first file
ZeroAttsRight(src, opts, st) ==
  LET ls == NotBlank(st.names["SCOM"])
      names(j, v) == Has(ls[j], "Variable ") /\ (Ends(Squeeze(ls[j]), ": " \o BestName(v)) \/ Ends(Squeeze(ls[j]), "Variable " \o BestName(v)))
      shown(v, a) == \E h \in {j \in DOMAIN ls : names(j, v)} : \E e \in h..Len(ls) :
                        /\ InRow(Shows(a, " = "), SubSeq(ls, h + 1, e))
                        /\ \A j \in (h + 1)..e : ~Has(ls[j], "  Variable ")
  IN UNION {LET v == Var(src, k) IN
            {v.id \o ":" \o v.attrs[a].k : a \in {i \in DOMAIN v.attrs : v.attrs[i].text /\ ~shown(v, v.attrs[i])}}
            : k \in {j \in Wanted(src, opts) : Rank(src, j) = 0}}
=============================================================================
