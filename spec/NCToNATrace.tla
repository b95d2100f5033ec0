---------------------------- MODULE NCToNATrace ----------------------------
(***************************************************************************)
(* Recorded conversions of gridded sources to NASA Ames files.  A case:    *)
(*   src, opts   the source and the options                                *)
(*   raised      whether the conversion raised an error                    *)
(*   files       Seq of [name, lines], in the order reported               *)
(*   judge       the groups of clauses to decide                           *)
(* One step per file: it is decoded by the reader machine of NAFormat.     *)
(* Then the clauses of NCToNA are decided.                                 *)
(***************************************************************************)
EXTENDS NCHeader, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, sts, bad
vars == <<c, k, sts, bad>>

Init == c \in DOMAIN Cases /\ k = 0 /\ sts = << >> /\ bad = {}

Decodes ==
  /\ k < Len(Cases[c].files)
  /\ k' = k + 1
  /\ sts' = Append(sts, Read(0, Cases[c].files[k + 1].lines))
  /\ UNCHANGED <<c, bad>>

Tag(s, S) == {s \o ": " \o x : x \in S}
Verdict(cs) ==
  LET src == cs.src
      broken == {j \in DOMAIN sts : sts[j].err # ""}
      W == Wanted(src, cs.opts)
      top == {Rank(src, x) : x \in W}
      gs == Explain(src, Gridded(src, W), sts, cs.opts.ffi)
      whole == Len(gs) = Len(sts)
      per(S(_, _)) == UNION {S(sts[j], gs[j]) : j \in DOMAIN gs}
      F(st, g) == FileRight(src, st, g)
      X(st, g) == IndexRight(st, g, cs.opts.ffi)
      M(st, g) == MissingRight(src, st, g)
      D(st, g) == DateRight(src, st, g, cs.days)
      H(st, g) == VarAttsRight(src, st, g) \cup CommentsRight(src, st)
      cando == \A x \in W : Rank(src, x) <= 4
  IN IF cs.raised THEN
       (IF ~cando \/ Gridded(src, W) = {} THEN {}
        ELSE IF cs.opts.ffi = 0 THEN {"conversion refused"}
        ELSE IF "index" \in Range(cs.judge) /\ AllFeasible(src, Gridded(src, W), cs.opts.ffi) THEN {"possible index refused"}
        ELSE {})
     ELSE (IF ~cando THEN {"more than four dimensions accepted"} ELSE {})
       \cup {"not a well-formed file: " \o sts[j].err : j \in broken}
       \cup (IF broken # {} THEN {}
             ELSE (IF "once" \in Range(cs.judge) THEN Tag("once", Once(src, cs.opts, sts)) ELSE {})
             \cup (IF whole THEN {} ELSE {"file " \o ToString(Len(gs) + 1) \o " is not the group of a leading variable"})
             \cup (IF "file" \in Range(cs.judge) THEN Tag("file", per(F)) ELSE {})
             \cup (IF "index" \in Range(cs.judge) THEN Tag("index", per(X)) ELSE {})
             \cup (IF "missing" \in Range(cs.judge) THEN Tag("missing", per(M)) ELSE {})
             \cup (IF "header" \in Range(cs.judge)
                   THEN Tag("header", per(H) \cup UNION {ItemsRight(src, cs.files[j].lines, cs.conf) : j \in DOMAIN sts}
                                   \cup ZeroAttsRight(src, cs.opts, sts[1]))
                   ELSE {})
             \cup (IF "date" \in Range(cs.judge) THEN Tag("date", per(D)) ELSE {}))

Judges ==
  /\ k = Len(Cases[c].files)
  /\ k' = k + 1
  /\ bad' = Verdict(Cases[c])
  /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad']))
  /\ UNCHANGED <<c, sts>>
Next == Decodes \/ Judges
Spec == Init /\ [][Next]_vars
=============================================================================
