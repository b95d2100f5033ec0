----------------------------- MODULE FFISelect ------------------------------
(***************************************************************************)
(* Which file format index fits a data set.                                *)
(*                                                                         *)
(* A structure s says how a dictionary presents its data set:              *)
(*   niv    number of independent variables                                *)
(*   char   the unbounded independent variable is a character string       *)
(*   per    the second independent variable is listed per mark             *)
(*   lens   how many of its values each mark lists                         *)
(*   nx     how many values each mark has                                  *)
(*   start  which marks list, as first value, the one held for them in      *)
(*          auxiliary variable 2                                            *)
(*   naux   number of auxiliary variables, or -1 if it has no such notion  *)
(*   nvpm   whether marks have implied points                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Supported == {1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010}

\* the layouts that can hold the structure, in terms of what the format says
Holds(s, f) ==
  CASE f \notin Supported  -> FALSE
    [] s.niv # f \div 1000 -> FALSE
    [] f = 1001 -> s.naux = -1
    [] f = 1010 -> s.naux >= 0 /\ ~s.nvpm
    [] f = 1020 -> s.naux >= 0 /\ s.nvpm
    [] f = 2010 -> ~s.per /\ ~s.char
    [] f = 2160 -> s.char
    [] f = 2110 -> s.per /\ ~s.char /\ s.naux >= 1 /\ s.lens = s.nx
    [] f = 2310 -> s.per /\ ~s.char /\ s.naux >= 3
                   /\ \A m \in DOMAIN s.lens : s.lens[m] = 1 /\ s.start[m]
    [] f \in {3010, 4010} -> TRUE

Fitting(s) == {f \in Supported : Holds(s, f)}

\* the choice: the only fitting layout; where both fit (each mark has exactly one
\* value, which is also its starting value) either will do
ChoiceOK(s, f) == f \in Fitting(s)
Refused(s)     == Fitting(s) = {}

\* every structure of the supported kinds has a layout, and at most the
\* one-value case is ambiguous
Legal(s) == /\ s.niv \in 1..4
            /\ s.niv # 2 => ~s.char /\ ~s.per
            /\ s.niv # 1 => ~s.nvpm
            /\ s.nvpm => s.naux >= 0
            /\ s.niv = 2 => s.naux >= 0
            /\ s.char => s.per /\ s.naux >= 1
            /\ s.per => /\ s.naux >= 1 /\ Len(s.nx) >= 1
                        /\ Len(s.lens) = Len(s.nx) /\ Len(s.start) = Len(s.nx)
                        /\ \A m \in DOMAIN s.start : s.start[m] => s.naux >= 3 /\ s.lens[m] >= 1
                        /\ \/ s.lens = s.nx                                   \* values listed
                           \/ s.naux >= 3 /\ ~s.char /\ \A m \in DOMAIN s.lens : s.lens[m] = 1 /\ s.start[m]
            /\ ~s.per => s.lens = << >> /\ s.nx = << >> /\ s.start = << >>
=============================================================================
