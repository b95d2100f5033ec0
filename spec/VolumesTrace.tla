----------------------------- MODULE VolumesTrace -----------------------------
(***************************************************************************)
(* Recorded conversions with a row limit.  A case:                         *)
(*   limit, nohead    the options                                          *)
(*   outs             Seq of [ffi, head, rows, name], the same conversion  *)
(*                    without a limit, in the order reported               *)
(*   files            Seq of [vol, lines, name]: the files written, lines  *)
(*                    as text, vol the items of the sixth line             *)
(*   heads            number of header lines of a file that keeps them     *)
(* The machine of Volumes must have written the files one by one.          *)
(***************************************************************************)
EXTENDS Volumes, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, o, r, v, k, bad
vars == <<c, o, r, v, k, bad>>
Init == c \in DOMAIN Cases /\ o = 1 /\ r = 0 /\ v = 0 /\ k = 1 /\ bad = {}

\* the header is that of the whole output, but for the volume numbers
HeadRight(head, f, want) ==
  /\ Len(f.lines) >= Len(head)
  /\ \A j \in DOMAIN head : j = 6 \/ f.lines[j] = head[j]
  /\ f.vol = <<ToString(want.ivol), ToString(want.nvol)>>
FileRight(cs, f, want) ==
  LET head == IF cs.nohead THEN << >> ELSE cs.outs[want.o].head
      h == Len(head)
  IN (IF cs.nohead \/ HeadRight(head, f, want) THEN {} ELSE {"header of file " \o ToString(k)})
     \cup (IF Len(f.lines) >= h /\ SubSeq(f.lines, h + 1, Len(f.lines)) = want.rows THEN {}
           ELSE {"rows of file " \o ToString(k)})
     \cup (IF want.kind = "volume" \/ f.name = cs.outs[want.o].name THEN {} ELSE {"name of file " \o ToString(k)})

Writes == LET cs == Cases[c] IN
  /\ bad = {} /\ o <= Len(cs.outs) /\ k <= Len(cs.files)
  /\ LET want == NextFile(cs.outs, o, r, v, cs.limit)
         a == Advance(cs.outs, o, r, v, cs.limit)
     IN /\ bad' = FileRight(cs, cs.files[k], want)
        /\ o' = a[1] /\ r' = a[2] /\ v' = a[3]
  /\ k' = k + 1
  /\ UNCHANGED c
Ends == LET cs == Cases[c] IN
  /\ k <= Len(cs.files) + 1
  /\ bad # {} \/ o > Len(cs.outs) \/ k > Len(cs.files)
  /\ k' = Len(cs.files) + 2
  /\ bad' = bad \cup (IF bad # {} THEN {}
                      ELSE IF k <= Len(cs.files) THEN {"more files than volumes"}
                      ELSE IF o <= Len(cs.outs) THEN {"fewer files than volumes"} ELSE {})
  /\ PrintT("VERDICT " \o ToJson([id |-> cs.id, bad |-> bad']))
  /\ UNCHANGED <<c, o, r, v>>
Next == Writes \/ Ends
Spec == Init /\ [][Next]_vars
=============================================================================
