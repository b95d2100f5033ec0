------------------------------- MODULE Compare ------------------------------
(***************************************************************************)
(* The verdict of comparing two NASA Ames files.                           *)
(*                                                                         *)
(* A file f: nh (number of header lines), lines.  A line: t (its text,     *)
(* stripped), items (split at the delimiter declared for the file, each    *)
(* stripped), words (the items split further at white space).  An item:    *)
(* s (text), v (canonical number, "" if it is not one), known and m (its value *)
(* in thousandths, if that is a small integer).                           *)
(* Options o: header, body, clever (numbers by value), approx (within 1%). *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
SameSign(a, b) == (a > 0 /\ b > 0) \/ (a < 0 /\ b < 0)
NearM(a, b) == LET lo == IF Abs(a) < Abs(b) THEN Abs(a) ELSE Abs(b)
               IN a = b \/ (SameSign(a, b) /\ 100 * Abs(a - b) <= lo)

ItemSame(x, y, o) ==
  \/ x.s = y.s
  \/ o.clever /\ x.v # "" /\ y.v # "" /\ x.v = y.v
  \/ o.clever /\ o.approx /\ x.v # "" /\ y.v # "" /\ x.known /\ y.known /\ NearM(x.m, y.m)

SeqSame(p, q, o) == Len(p) = Len(q) /\ \A k \in DOMAIN p : ItemSame(p[k], q[k], o)

LineSame(a, b, o) ==
  \/ a.t = b.t
  \/ IF Len(a.items) = Len(b.items) THEN SeqSame(a.items, b.items, o)
     ELSE SeqSame(a.words, b.words, o)

Least(a, b) == IF a < b THEN a ELSE b
Head_(f) == SubSeq(f.lines, 1, Least(f.nh, Len(f.lines)))
Body_(f) == SubSeq(f.lines, f.nh + 1, Len(f.lines))
SectionSame(p, q, o) == Len(p) = Len(q) /\ \A k \in DOMAIN p : LineSame(p[k], q[k], o)

Same(f, g, o) == /\ o.header => SectionSame(Head_(f), Head_(g), o)
                 /\ o.body   => SectionSame(Body_(f), Body_(g), o)
=============================================================================
