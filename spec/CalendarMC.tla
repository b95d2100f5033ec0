----------------------------- MODULE CalendarMC -----------------------------
(* Day numbers and dates are inverse, and days follow one another.         *)
EXTENDS Calendar
VARIABLES cal, n
Cals == {"standard", "proleptic_gregorian", "noleap", "all_leap", "360_day", "julian"}
Starts == {600000, 577725, 577730, 684000, 693000, 730000}
Init == cal \in Cals /\ n \in Starts
Next == n' = n + 1 /\ (n + 1) \notin Starts /\ \E s \in Starts : n - s \in 0..1600 /\ UNCHANGED cal
DaysIn(c, y, m) == LET k == Canonical(c)
                       leap == CASE k = "julian" -> y % 4 = 0
                                 [] k = "standard" -> IF y <= 1582 THEN y % 4 = 0
                                                      ELSE y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
                                 [] k = "proleptic" -> y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
                                 [] k = "all_leap" -> TRUE
                                 [] OTHER -> FALSE
                   IN IF k = "360" THEN 30 ELSE IF m = 2 THEN (IF leap THEN 29 ELSE 28) ELSE Months365[m]
Inverse == LET d == DateOf(cal, n) IN DayNo(cal, d[1], d[2], d[3]) = n
InRange == LET d == DateOf(cal, n) IN d[2] \in 1..12 /\ d[3] \in 1..DaysIn(cal, d[1], d[2])
Follows == LET d == DateOf(cal, n)
               e == DateOf(cal, n + 1)
           IN \/ e = <<d[1], d[2], d[3] + 1>>
              \/ d[3] = DaysIn(cal, d[1], d[2]) /\ e = <<d[1] + (d[2] \div 12), (d[2] % 12) + 1, 1>>
              \/ Canonical(cal) = "standard" /\ d = <<1582, 10, 4>> /\ e = <<1582, 10, 15>>
Spec == Init /\ [][Next]_<<cal, n>>
=============================================================================
