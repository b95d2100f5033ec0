------------------------------- MODULE Volumes -------------------------------
(***************************************************************************)
(* Splitting one-dimensional output (FFI 1001) by a limit on its rows.     *)
(* An output is [ffi, head, rows]: header lines and data lines.  The       *)
(* machine writes the outputs one after another; an output that is longer  *)
(* than the limit leaves in volumes.                                       *)
(*   o   the output being written, r  rows of it already written,          *)
(*   v   volumes of it already written, files  what has been written       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

NVols(n, limit) == (n + limit - 1) \div limit
\* limit 0 stands for none
Splits(out, limit) == limit > 0 /\ out.ffi = 1001 /\ Len(out.rows) > limit

Min2(a, b) == IF a < b THEN a ELSE b
\* [o, kind, ivol, nvol, rows]: the next file after r rows and v volumes of output o
NextFile(outs, o, r, v, limit) ==
  LET out == outs[o] n == Len(out.rows)
  IN IF ~Splits(out, limit) THEN [o |-> o, kind |-> "whole", ivol |-> 1, nvol |-> 1, rows |-> out.rows]
     ELSE [o |-> o, kind |-> "volume", ivol |-> v + 1, nvol |-> NVols(n, limit),
           rows |-> SubSeq(out.rows, r + 1, Min2(r + limit, n))]
Advance(outs, o, r, v, limit) ==
  LET n == Len(outs[o].rows)
  IN IF ~Splits(outs[o], limit) \/ r + limit >= n THEN <<o + 1, 0, 0>> ELSE <<o, r + limit, v + 1>>

RECURSIVE Plan(_, _, _, _, _)
Plan(outs, o, r, v, limit) ==
  IF o > Len(outs) THEN << >>
  ELSE LET a == Advance(outs, o, r, v, limit)
       IN <<NextFile(outs, o, r, v, limit)>> \o Plan(outs, a[1], a[2], a[3], limit)
=============================================================================
