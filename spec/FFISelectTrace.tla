--------------------------- MODULE FFISelectTrace ---------------------------
(***************************************************************************)
(* What nappy chose or dispatched on, judged by FFISelect.                 *)
(*   kind "choose":   structure s, nappy's choice ffi (0: refused)         *)
(*   kind "dispatch": top line index top (its file otherwise well formed); *)
(*                    ffi reported by readFFI, opened: index of the handle *)
(*                    (0: refused)                                         *)
(***************************************************************************)
EXTENDS FFISelect, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, done

Judge(x) ==
  CASE x.kind = "choose" ->
         IF Refused(x.s) THEN (IF x.ffi = 0 THEN {} ELSE {"chose " \o ToString(x.ffi) \o " for an impossible structure"})
         ELSE IF ChoiceOK(x.s, x.ffi) THEN {}
         ELSE {"chose " \o ToString(x.ffi) \o " where " \o ToString(Fitting(x.s)) \o " fits"}
    [] x.kind = "dispatch" ->
         (IF x.ffi # x.top THEN {"readFFI says " \o ToString(x.ffi) \o " for " \o ToString(x.top)} ELSE {})
         \cup (IF x.top \in Supported
               THEN (IF x.opened = x.top THEN {} ELSE {"opened as " \o ToString(x.opened) \o " not " \o ToString(x.top)})
               ELSE (IF x.opened = 0 THEN {} ELSE {"unsupported index opened"}))

Init == c \in DOMAIN Cases /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> Judge(Cases[c])]))
=============================================================================
