------------------------------ MODULE NAHandle ------------------------------
(***************************************************************************)
(* The life cycle of NASA Ames file handles (nappy.openNAFile) and the     *)
(* files on disk behind them.                                              *)
(*                                                                         *)
(*   disk    path -> what the path holds: nothing, an empty file (a handle *)
(*           opened for writing and not yet written), or data set d        *)
(*           written with options o                                        *)
(*   handles the handles opened so far, in order                           *)
(*   spoilt  the data sets that now lack something a file needs            *)
(*                                                                         *)
(* Each action has a guarded form (op does what it is for) and a refusal   *)
(* (op raises an error and changes nothing).  Outcome(op) says which.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Paths, Data, Opts,
          Readable(_),         \* options whose files can be opened for reading
          BadModes

Nothing     == [k |-> "none", d |-> "", o |-> ""]
Empty       == [k |-> "empty", d |-> "", o |-> ""]
Holds(d, o) == [k |-> "data", d |-> d, o |-> o]

VARIABLES disk, handles, spoilt
hvars == <<disk, handles, spoilt>>

HInit == disk = [p \in Paths |-> Nothing] /\ handles = << >> /\ spoilt = {}

H(h)       == handles[h]
IsOpen(p)  == \E h \in DOMAIN handles : H(h).path = p /\ H(h).open
Writer(p)  == \E h \in DOMAIN handles : H(h).path = p /\ H(h).open /\ H(h).mode = "w"

\* ops: records [op, h, p, d, o, m]; h the handle used, or made by an opening
Op(op, h, p, d, o, m) == [op |-> op, h |-> h, p |-> p, d |-> d, o |-> o, m |-> m]

\* what a sensible program might attempt next (two live handles writing to one
\* path, or reading a file while it is rewritten, have no defined meaning)
Attempts ==
  LET new == Len(handles) + 1 IN
     {Op("openw", new, p, d, "", "w") : p \in {q \in Paths : ~IsOpen(q)}, d \in Data}
  \cup {Op("openr", new, p, "", "", "r") :
          p \in {q \in Paths : ~Writer(q) /\ (disk[q].k = "data" => Readable(disk[q].o))}}
  \cup {Op("openbad", 0, p, d, "", m) : p \in Paths, d \in Data, m \in BadModes}
  \cup {Op("write", h, H(h).path, H(h).d, o, "") : h \in DOMAIN handles, o \in Opts}
  \cup {Op("read", h, H(h).path, H(h).d, "", "") :
          h \in {g \in DOMAIN handles : H(g).mode = "r" /\ H(g).open /\ disk[H(g).path] = H(g).saw}}
  \cup {Op("close", h, H(h).path, "", "", "") : h \in DOMAIN handles}
  \cup {Op("exit", h, H(h).path, "", "", "") : h \in DOMAIN handles}
  \* the program takes something away from a data set it is about to write, or puts it back
  \cup {Op("spoil", 0, H(h).path, H(h).d, "", "") : h \in {g \in DOMAIN handles : H(g).mode = "w" /\ ~H(g).written /\ H(g).d \notin spoilt}}
  \cup {Op("mend", 0, H(h).path, H(h).d, "", "") : h \in {g \in DOMAIN handles : H(g).mode = "w" /\ H(g).d \in spoilt}}

\* whether the operation is accepted
Accepted(a) ==
  CASE a.op = "openw"   -> TRUE
    [] a.op = "openr"   -> disk[a.p].k = "data"
    [] a.op = "openbad" -> FALSE
    [] a.op = "write"   -> H(a.h).mode = "w" /\ H(a.h).open /\ ~H(a.h).written
                            /\ H(a.h).d \notin spoilt          \* (and may be tried again)
    [] a.op \in {"spoil", "mend"} -> TRUE
    [] a.op = "read"    -> TRUE
    [] a.op \in {"close", "exit"} -> TRUE

Effect(a) ==
  IF ~Accepted(a) THEN UNCHANGED hvars
  ELSE /\ spoilt' = (CASE a.op = "spoil" -> spoilt \cup {a.d} [] a.op = "mend" -> spoilt \ {a.d} [] OTHER -> spoilt)
       /\ CASE a.op = "openw" ->
              /\ disk' = [disk EXCEPT ![a.p] = Empty]
              /\ handles' = Append(handles, [path |-> a.p, mode |-> "w", d |-> a.d, open |-> TRUE,
                                             written |-> FALSE, saw |-> Nothing])
         [] a.op = "openr" ->
              /\ handles' = Append(handles, [path |-> a.p, mode |-> "r", d |-> disk[a.p].d, open |-> TRUE,
                                             written |-> FALSE, saw |-> disk[a.p]])
              /\ UNCHANGED disk
         [] a.op = "write" ->
              /\ disk' = [disk EXCEPT ![a.p] = Holds(H(a.h).d, a.o)]
              /\ handles' = [handles EXCEPT ![a.h].written = TRUE]
         [] a.op \in {"read", "spoil", "mend"} -> UNCHANGED <<disk, handles>>
         [] a.op \in {"close", "exit"} ->
              /\ handles' = [handles EXCEPT ![a.h].open = FALSE]
              /\ UNCHANGED disk

\* ------------------------------------------------------------- the guarantees
\* a path only ever holds a complete data set, an empty file or nothing, and
\* what it holds was written by a handle opened for writing
WellFormed ==
  /\ \A p \in Paths : disk[p].k \in {"none", "empty", "data"}
  /\ \A p \in Paths : disk[p].k = "data" =>
        \E h \in DOMAIN handles : H(h).path = p /\ H(h).mode = "w" /\ H(h).written
                                  /\ H(h).d = disk[p].d
\* one write per handle, none through a closed or reading handle
OneWrite == [][\A p \in Paths : disk'[p] # disk[p] /\ disk'[p].k = "data" =>
                  \E h \in DOMAIN handles : /\ H(h).path = p /\ H(h).mode = "w" /\ H(h).open
                                            /\ ~H(h).written /\ handles'[h].written
                                            /\ H(h).d \notin spoilt]_hvars
\* closing is for good
ClosedStays == [][\A h \in DOMAIN handles : ~H(h).open => ~handles'[h].open]_hvars
=============================================================================
