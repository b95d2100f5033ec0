-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* The names of the files a conversion creates.                            *)
(* A path is a string; its extension starts at the last dot of its last    *)
(* component, unless only dots come before that dot.                       *)
(***************************************************************************)
EXTENDS Volumes, FiniteSets

Ch(s, k) == SubSeq(s, k, k)
RECURSIVE LastOf(_, _, _)
LastOf(s, ch, k) == IF k = 0 THEN 0 ELSE IF Ch(s, k) = ch THEN k ELSE LastOf(s, ch, k - 1)
Slash(s)   == LastOf(s, "/", Len(s))                    \* 0 if none
DirOf(s)   == SubSeq(s, 1, Slash(s))
Dot(s) ==                                               \* where the extension starts, 0 if none
  LET d == LastOf(s, ".", Len(s)) IN
  IF d <= Slash(s) THEN 0
  ELSE IF \A k \in (Slash(s) + 1)..(d - 1) : Ch(s, k) = "." THEN 0
  ELSE d
Stem(s) == IF Dot(s) = 0 THEN s ELSE SubSeq(s, 1, Dot(s) - 1)
Ext(s)  == IF Dot(s) = 0 THEN "" ELSE SubSeq(s, Dot(s), Len(s))

WithExt(s, ext)   == Stem(s) \o "." \o ext
\* the default of the converter classes
EndsIn(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
ClassDefault(s)   == (IF EndsIn(s, ".nc") THEN SubSeq(s, 1, Len(s) - 3) ELSE s) \o ".na"
DefaultRefused(s, ext) == WithExt(s, ext) = s
OfOutput(s, n, k) == IF n = 1 THEN s ELSE Stem(s) \o "_" \o ToString(k) \o Ext(s)
Pad3(k) == IF k < 10 THEN "00" \o ToString(k) ELSE IF k < 100 THEN "0" \o ToString(k) ELSE ToString(k)
OfVolume(s, k)    == Stem(s) \o "-" \o Pad3(k) \o Ext(s)

\* names of the files of a plan of Volumes, the outputs being n in number
FileName(s, n, f) == LET x == OfOutput(s, n, f.o) IN IF f.kind = "whole" THEN x ELSE OfVolume(x, f.ivol)
Expected(s, outs, limit) ==
  LET fs == Plan(outs, 1, 0, 0, limit) IN [k \in DOMAIN fs |-> FileName(s, Len(outs), fs[k])]
Distinct(names) == Cardinality({names[k] : k \in DOMAIN names}) = Len(names)
=============================================================================
