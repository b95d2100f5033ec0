----------------------------- MODULE NAHandleMC -----------------------------
(***************************************************************************)
(* All programs of up to MaxLen operations on up to MaxH handles: checks   *)
(* the guarantees of NAHandle and exports each maximal program, to be      *)
(* replayed on nappy.                                                      *)
(***************************************************************************)
EXTENDS NAHandle, Json, IOUtils

MCPaths == {"p1", "p2"}
MCData  == {"d1", "d2"}
MCOpts  == {"o1", "o2"}                  \* o2: perhaps without a header
MCBad   == {"a"}
MCReadable(o) == o = "o1"

MaxLen == atoi(IOEnv.MAXLEN)
MaxH   == 3

VARIABLE prog
vars == <<disk, handles, spoilt, prog>>

Init == HInit /\ prog = << >>
Next == /\ Len(prog) < MaxLen
        /\ \E a \in Attempts :
             /\ a.h <= MaxH
             /\ Effect(a)
             /\ prog' = Append(prog, a)
             /\ (Len(prog') = MaxLen => PrintT("EXPORT " \o ToJson([prog |-> prog'])))
Spec == Init /\ [][Next]_vars
=============================================================================
