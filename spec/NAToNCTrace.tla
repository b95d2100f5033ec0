----------------------------- MODULE NAToNCTrace -----------------------------
(***************************************************************************)
(* Recorded conversions of NASA Ames files.  A case is a history of        *)
(* conversions into targets:                                               *)
(*   files  Seq of Seq of lines: the sources                               *)
(*   steps  Seq of [src, target, mode, opts, raised, out, judge]           *)
(* One step of the machine reads one source; then one step per conversion. *)
(* content[t] is what target t must hold: a Seq of [src, opts], the        *)
(* conversions since it was last written.                                  *)
(***************************************************************************)
EXTENDS NAToNC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, sts, k, content, bad
vars == <<c, sts, k, content, bad>>
Init == c \in DOMAIN Cases /\ sts = << >> /\ k = 1 /\ bad = {}
        /\ content = [t \in 1..Cases[c].targets |-> << >>]

Reads == /\ Len(sts) < Len(Cases[c].files)
         /\ sts' = Append(sts, Read(0, Cases[c].files[Len(sts) + 1]))
         /\ UNCHANGED <<c, k, content, bad>>

Rng(q) == {q[j] : j \in DOMAIN q}
\* the variables of a target that belong to conversion h of its history, by their names
Own(h, out) ==
  LET st == sts[h.src]
      es == [j \in DOMAIN Selection(st, h.opts).vars |-> Rec(st, Selection(st, h.opts).vars[j])]
      ids == {IdOf(h.opts, es[j]) : j \in DOMAIN es}
  IN [out EXCEPT !.vars = SelectSeq(out.vars, LAMBDA w : \E i \in ids : w.name = i \/ Numberless(w.name, i))]

JudgeOne(st, o, out, judge) ==
  Content(st, o, out, judge)
  \cup (IF "globals" \in judge THEN GlobalsRight(st, o, out) ELSE {})
  \cup (IF "dates" \in judge THEN DatesRight(st, out) ELSE {})
  \cup (IF "axisunits" \in judge THEN AxisUnitsRight(st, o, out) ELSE {})

\* a target that has been appended to holds the variables of every conversion, and no others
JudgeAll(hist, out, judge) ==
  LET given(j) == {<<hist[j].src, x>> : x \in Rng(Selection(sts[hist[j].src], hist[j].opts).vars)}
      total == Cardinality(UNION {given(j) : j \in DOMAIN hist})
  IN UNION {{"conversion " \o ToString(j) \o ": " \o x :
                x \in Content(sts[hist[j].src], hist[j].opts, Own(hist[j], out), judge)} : j \in DOMAIN hist}
     \cup (IF Len(out.vars) = total THEN {} ELSE {"number of variables in the target"})
     \cup (IF "globals" \in judge THEN GlobalsKept(hist, sts, out) ELSE {})

Converts ==
  LET cs == Cases[c] IN
  /\ Len(sts) = Len(cs.files) /\ k <= Len(cs.steps)
  /\ LET s  == cs.steps[k]
         st == sts[s.src]
         ok == Accepted(st, s.opts)
         hist == IF s.mode = "a" THEN Append(content[s.target], [src |-> s.src, opts |-> s.opts])
                 ELSE <<[src |-> s.src, opts |-> s.opts]>>
         judge == Rng(s.judge)
         found == IF st.err # "" THEN {"the source is not well-formed: " \o st.err}
                  ELSE IF s.raised THEN
                         (IF ok THEN {"conversion refused"}
                          ELSE IF content[s.target] = << >> THEN {}
                          ELSE JudgeAll(content[s.target], s.out, judge))
                  ELSE IF ~ok THEN {"conversion not refused"}
                  ELSE IF Len(hist) = 1 THEN JudgeOne(st, s.opts, s.out, judge)
                  ELSE JudgeAll(hist, s.out, judge)
     IN /\ bad' = bad \cup {"step " \o ToString(k) \o ": " \o x : x \in found}
        /\ content' = IF s.raised \/ st.err # "" \/ ~ok THEN content ELSE [content EXCEPT ![s.target] = hist]
  /\ k' = k + 1
  /\ UNCHANGED <<c, sts>>
Done == /\ Len(sts) = Len(Cases[c].files) /\ k = Len(Cases[c].steps) + 1
        /\ k' = k + 1
        /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> bad]))
        /\ UNCHANGED <<c, sts, content, bad>>
Next == Reads \/ Converts \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
