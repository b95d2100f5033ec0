------------------------------- MODULE Decimal -------------------------------
(***************************************************************************)
(* Decimal numbers given as text, exactly: <<m, e>> stands for m * 10^e    *)
(* (m not a multiple of ten unless zero).  Texts of more than nine digits  *)
(* are not taken apart.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL At(s, k) == SubSeq(s, k, k)
Digits == "0123456789"
IsDigit(ch) == \E d \in 1..10 : At(Digits, d) = ch
DigitOf(ch) == (CHOOSE d \in 1..10 : At(Digits, d) = ch) - 1

\* p: [ok, neg, m, e, dot, exp, eneg, digits], taken character by character
DecInit == [ok |-> TRUE, neg |-> FALSE, m |-> 0, frac |-> 0, dot |-> FALSE, exp |-> FALSE, eneg |-> FALSE,
            e |-> 0, n |-> 0, en |-> 0]
Take(p, ch) ==
  IF ~p.ok THEN p
  ELSE IF ch = "-" /\ p.n = 0 /\ ~p.dot /\ ~p.exp /\ ~p.neg THEN [p EXCEPT !.neg = TRUE]
  ELSE IF ch = "+" /\ p.n = 0 /\ ~p.dot /\ ~p.exp THEN p
  ELSE IF ch = "." /\ ~p.dot /\ ~p.exp THEN [p EXCEPT !.dot = TRUE]
  ELSE IF ch \in {"e", "E"} /\ p.n > 0 /\ ~p.exp THEN [p EXCEPT !.exp = TRUE]
  ELSE IF ch = "-" /\ p.exp /\ p.en = 0 THEN [p EXCEPT !.eneg = TRUE]
  ELSE IF ch = "+" /\ p.exp /\ p.en = 0 THEN p
  ELSE IF ~IsDigit(ch) THEN [p EXCEPT !.ok = FALSE]
  ELSE IF p.exp THEN [p EXCEPT !.e = 10 * @ + DigitOf(ch), !.en = @ + 1, !.ok = p.en < 4]
  ELSE IF p.n = 9 THEN [p EXCEPT !.ok = FALSE]
  ELSE [p EXCEPT !.m = 10 * @ + DigitOf(ch), !.n = IF p.m = 0 /\ ch = "0" THEN @ ELSE @ + 1,
                 !.frac = IF p.dot THEN @ + 1 ELSE @]
RECURSIVE TakeAll(_, _)
TakeAll(s, k) == IF k = 0 THEN DecInit ELSE Take(TakeAll(s, k - 1), At(s, k))
Parsed(s) == TakeAll(s, Len(s))

RECURSIVE Normal(_, _)
Normal(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Normal(m \div 10, e + 1) ELSE <<m, e>>
IsDec(s) == Len(s) > 0 /\ Parsed(s).ok
Dec(s) == LET p == Parsed(s)
              v == Normal(p.m, (IF p.eneg THEN 0 - p.e ELSE p.e) - p.frac)
          IN <<IF p.neg THEN 0 - v[1] ELSE v[1], v[2]>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Neg(m, e) == LET v == Normal(Abs(m), e) IN <<IF m < 0 THEN 0 - v[1] ELSE v[1], v[2]>>
Mul(a, b) == Neg(a[1] * b[1], a[2] + b[2])
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Add(a, b) == LET e == IF a[2] < b[2] THEN a[2] ELSE b[2]
             IN Neg(a[1] * Pow10(a[2] - e) + b[1] * Pow10(b[2] - e), e)
\* as text again, the same text for the same number
Show(d) == ToString(d[1]) \o "E" \o ToString(d[2])
Same(s) == IF IsDec(s) THEN Show(Dec(s)) ELSE s
\* a text of any number of digits, rounded to eight significant ones (what a difference of binary fractions stands for)
RECURSIVE RoundTo(_, _)
RoundTo(s, k) ==                          \* as TakeAll, with only the digits that count
  IF k = 0 THEN [DecInit EXCEPT !.en = 0] @@ [up |-> FALSE, drop |-> 0]
  ELSE LET p == RoundTo(s, k - 1) ch == At(s, k) IN
       IF p.ok /\ IsDigit(ch) /\ ~p.exp /\ p.n >= 8
       THEN [p EXCEPT !.n = @ + 1, !.up = IF p.n = 8 THEN DigitOf(ch) >= 5 ELSE @,
                      !.drop = IF p.dot THEN @ ELSE @ + 1]
       ELSE Take(p, ch)
Rounded(s) == LET p == RoundTo(s, Len(s))
                  v == Normal(p.m + (IF p.up THEN 1 ELSE 0), (IF p.eneg THEN 0 - p.e ELSE p.e) - p.frac + p.drop)
              IN <<IF p.neg THEN 0 - v[1] ELSE v[1], v[2]>>
Times(s, t) == Show(Mul(Dec(s), Dec(t)))
=============================================================================
