-------------------------------- MODULE CLITrace --------------------------------
(***************************************************************************)
(* Two uses.  Cases without an outcome: the call each argument list means  *)
(* is exported, for the harness to make.  Cases with one: the recorded     *)
(* behaviour of the command is judged against that of the library call.    *)
(*   cmd, argv     (for "compare" the outcome is the text it reports)      *)
(*   out   [ended: "ok" / "stopped" / "failed", files, shown]              *)
(*   call  [failed, files, names]   of the library call; none for refusals *)
(* files: name -> content after it, shown: the file names it lists         *)
(***************************************************************************)
EXTENDS CLI, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>
Init == c \in DOMAIN Cases /\ done = FALSE

Listed(cmd) == cmd # "na2nc"
Differ(f, g) == {x \in DOMAIN f \cup DOMAIN g : x \notin DOMAIN f \/ x \notin DOMAIN g \/ f[x] # g[x]}
Verdict(cs) ==
  LET m == Meant(cs.cmd, cs.argv)
      o == cs.out
  IN IF cs.cmd = "compare" THEN
          IF m.why # "" THEN (IF o.compared THEN {"a refused command compares"} ELSE {})
          ELSE IF o.text = cs.call.text THEN {} ELSE {"differs from the library call"}
     ELSE IF m.why # "" THEN
          {"refused option changes " \o x : x \in Differ(cs.start, o.files)}
     ELSE {"differs from the library call: " \o x : x \in Differ(cs.call.files, o.files)}
          \cup (IF cs.call.failed /\ o.ended = "ok" THEN {"success reported for a call that fails"} ELSE {})
          \cup (IF ~cs.call.failed /\ o.ended # "ok" THEN {"no success reported"} ELSE {})
          \cup (IF ~cs.call.failed /\ Listed(cs.cmd) /\ o.shown # cs.call.names THEN {"files listed"} ELSE {})

Judges ==
  /\ ~done
  /\ done' = TRUE
  /\ LET cs == Cases[c]
     IN IF cs.phase = "export"
        THEN LET m == Meant(cs.cmd, cs.argv)
             IN PrintT("EXPORT " \o ToJson([id |-> cs.id, why |-> m.why, call |-> Call(cs.cmd), rest |-> m.rest,
                                            args |-> {<<a, m.args[a][1], m.args[a][2]>> : a \in DOMAIN m.args}]))
        ELSE PrintT("VERDICT " \o ToJson([id |-> cs.id, bad |-> Verdict(cs)]))
  /\ UNCHANGED c
Next == Judges
Spec == Init /\ [][Next]_vars
=============================================================================
