---------------------------- MODULE CompareTrace ----------------------------
(* Verdicts nappy.compareNA returned, judged by Compare. *)
EXTENDS Compare, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Init == c \in DOMAIN Cases /\ done = FALSE
Judge(x) == LET want == Same(x.f, x.g, x.o)
            IN IF x.verdict = (IF want THEN "same" ELSE "different") THEN {}
               ELSE {"verdict is " \o x.verdict \o ", should be " \o (IF want THEN "same" ELSE "different")}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> Judge(Cases[c]),
                                        same |-> Same(Cases[c].f, Cases[c].g, Cases[c].o)]))
=============================================================================
