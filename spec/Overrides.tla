------------------------------- MODULE Overrides -------------------------------
(***************************************************************************)
(* What overriding header items does to a converted file.  A set of        *)
(* overrides is a function from item names to [words, lines]: the value as *)
(* words and as lines.  The configured ones (conf) apply to every          *)
(* conversion, those given to one conversion apply to that one only and    *)
(* come before the configured ones.                                        *)
(***************************************************************************)
EXTENDS NAFormat

Permitted == {"DATE", "RDATE", "ANAME", "MNAME", "ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM"}
AsWords == {"DATE", "RDATE", "ANAME", "VNAME"}
Comments == {"SCOM", "NCOM"}
StartMark == [SCOM |-> "==== Special Comments follow ====", NCOM |-> "==== Normal Comments follow ===="]

Over(conf, given) == [k \in (DOMAIN conf \cup DOMAIN given) \cap Permitted |-> IF k \in DOMAIN given THEN given[k] ELSE conf[k]]

\* new comment lines go ahead of the existing ones, inside their start mark
Ahead(new, old, mark) ==
  IF old # << >> /\ old[1] = mark THEN <<mark>> \o new \o Tail(old) ELSE new \o old

\* the last normal comment line of some files names the columns
HasColumns(st) == st.ffi \in {1001, 2110} /\ st.nauxv = 0
RECURSIVE Commas(_)
Commas(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Commas(Tail(s))
Columns(st, vname) == Commas(<<st.names["XNAME"][Len(st.names["XNAME"])]>> \o vname)

VNameOf(st, ov) == IF "VNAME" \in DOMAIN ov THEN ov["VNAME"].words ELSE st.names["VNAME"]
CommentsOf(st, fd, ov) ==
  LET old == st.names[fd]
      cut == fd = "NCOM" /\ HasColumns(st) /\ old # << >>
      body == IF cut THEN SubSeq(old, 1, Len(old) - 1) ELSE old
      new == IF fd \in DOMAIN ov THEN ov[fd].lines ELSE << >>
  IN Ahead(new, body, StartMark[fd]) \o (IF cut THEN <<Columns(st, VNameOf(st, ov))>> ELSE << >>)

\* the item fd of a file that without overrides is st
Wants(st, fd, ov) ==
  CASE fd \in Comments -> FlatList(CommentsOf(st, fd, ov))
    [] fd = "NSCOML" -> <<ToString(Len(CommentsOf(st, "SCOM", ov)))>>
    [] fd = "NNCOML" -> <<ToString(Len(CommentsOf(st, "NCOM", ov)))>>
    [] fd = "NLHEAD" -> <<ToString(st.nhead - st.nscoml - st.nncoml + Len(CommentsOf(st, "SCOM", ov))
                                            + Len(CommentsOf(st, "NCOM", ov)))>>
    [] fd \in DOMAIN ov /\ fd \in AsWords -> FlatList(ov[fd].words)
    [] fd \in DOMAIN ov -> <<ov[fd].lines[1]>>
    [] OTHER -> Field(st, fd)

\* the line that names the columns is compared without its blanks (names may
\* stand in it with the blanks that reading the header removes around them)
RECURSIVE NoBlankTo(_, _)
NoBlankTo(s, k) == IF k = 0 THEN ""
                   ELSE NoBlankTo(s, k - 1) \o (IF SubSeq(s, k, k) = " " THEN "" ELSE SubSeq(s, k, k))
Bare(lines) == [i \in DOMAIN lines |-> IF i = Len(lines) - 1 THEN NoBlankTo(lines[i], Len(lines[i])) ELSE lines[i]]
Same(out, fd, want) ==
  IF fd = "NCOM" /\ HasColumns(out) /\ out.names["NCOM"] # << >>
  THEN Bare(Field(out, fd)) = Bare(want)
  ELSE Field(out, fd) = want

Wrong(base, out, ov) == {fd \in FieldNames : ~Same(out, fd, Wants(base, fd, ov))}
=============================================================================
