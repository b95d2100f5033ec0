-------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* A process that performs operations on shared objects: data sets (as     *)
(* dictionaries), files, open handles, in-memory variables and argument    *)
(* objects.  What an operation gives is a function of the operation and of *)
(* what its inputs hold alone, and operations change none of the inputs;   *)
(* so the same function explains every history of every process.  The user *)
(* may change an input between operations (put another file in its place,  *)
(* change a data set); what operations on it give then belongs to what it  *)
(* holds from then on.                                                     *)
(*   memo    what each operation gives, as far as known, by the operation  *)
(*           and what the inputs that may change held                      *)
(*   held    which of its contents each of those inputs holds              *)
(*   store   what each input holds                                         *)
(* An operation is [name, on, puts, as]: `on` is an input that may change  *)
(* or "", `puts` is an input whose contents the user changes to those      *)
(* called `as`, or "".                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* a history is a Seq of [op, out, after]
Key(ops, held, o) == <<o, IF ops[o].on = "" THEN "" ELSE held[ops[o].on]>>
Consistent(memo, key, out) == key \notin DOMAIN memo \/ memo[key] = out
Learn(memo, key, out) == IF key \in DOMAIN memo THEN memo ELSE memo @@ (key :> out)
HeldAfter(held, op) == IF op.puts = "" THEN held ELSE [held EXCEPT ![op.puts] = op.as]
\* what the inputs are to hold: contents[x][v] is the digest of contents v of x
StoreNow(store, contents, held) == [x \in DOMAIN store |-> IF x \in DOMAIN held THEN contents[x][held[x]] ELSE store[x]]
Changed(store, e) == {x \in DOMAIN store : e.after[x] # store[x]}
=============================================================================
