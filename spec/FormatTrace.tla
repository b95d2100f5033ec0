---------------------------- MODULE FormatTrace ----------------------------
(***************************************************************************)
(* Runs recorded from nappy, checked line by line against NAFormat.        *)
(*                                                                         *)
(* Each case of the file named by CASES is one text file that nappy wrote  *)
(* and/or read:                                                            *)
(*   skip   the stated number of lines ahead of the header                 *)
(*   lines  its lines, tokenised                                           *)
(*   raised whether nappy, having read it, raised an error (else FALSE)    *)
(*   given  field name -> flat value: the data set nappy was given to write*)
(*          or returned when reading                                       *)
(* The reader machine consumes the lines; at the end its data set must be  *)
(* the given one, and nappy must have refused exactly the malformed files. *)
(***************************************************************************)
EXTENDS NAFormat, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, k, st, verdict
vars == <<c, k, st, verdict>>

Init == /\ c \in DOMAIN Cases
        /\ k = 0
        /\ st = InitState(Cases[c].skip)
        /\ verdict = {"running"}

More == k < Len(Cases[c].lines) /\ st.err = ""

Consumes == /\ verdict = {"running"}
            /\ More
            /\ st' = Step(st, Cases[c].lines[k + 1])
            /\ k' = k + 1
            /\ UNCHANGED <<c, verdict>>

Judge(s, cs) ==
  IF s.err # "" THEN (IF cs.raised THEN {} ELSE {"malformed file accepted: " \o s.err})
  ELSE IF cs.raised THEN {"well-formed file refused"}
  ELSE Diff(s, cs.given)

Ends == /\ verdict = {"running"}
        /\ ~More
        /\ st' = Finish(st)
        /\ verdict' = Judge(st', Cases[c])
        /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> verdict', err |-> st'.err]))
        /\ UNCHANGED <<c, k>>

Next == Consumes \/ Ends
Spec == Init /\ [][Next]_vars

\* every case conforms (the harness collects all verdicts rather than stop at one)
Conforms == verdict \in {{}, {"running"}}
=============================================================================
