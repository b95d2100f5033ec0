------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The CF calendars: the date of a time that is a number of units since a  *)
(* reference date.  Dates are <<year, month, day>>; DayNo and DateOf are   *)
(* inverse to one another in each calendar (CalendarMC checks it).         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Canonical(cal) == CASE cal \in {"standard", "gregorian", ""}     -> "standard"
                    [] cal = "proleptic_gregorian"               -> "proleptic"
                    [] cal \in {"noleap", "365_day"}             -> "noleap"
                    [] cal \in {"all_leap", "366_day"}           -> "all_leap"
                    [] cal = "360_day"                           -> "360"
                    [] cal = "julian"                            -> "julian"

Months365 == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE Before(_, _)                  \* days of the year before month m
Before(m, feb) == IF m = 1 THEN 0
                  ELSE (IF m - 1 = 2 THEN feb ELSE Months365[m - 1]) + Before(m - 1, feb)
RECURSIVE MonthOf(_, _, _)              \* the month holding day n (from 0) of the year
MonthOf(n, feb, m) == IF m = 12 \/ n < Before(m + 1, feb) THEN m ELSE MonthOf(n, feb, m + 1)

FixedNo(y, m, d, len, feb) == y * len + Before(m, feb) + d - 1
FixedDate(n, len, feb) ==
  LET y == n \div len
      r == n % len
      m == MonthOf(r, feb, 1)
  IN <<y, m, r - Before(m, feb) + 1>>

\* days since 0000-03-01 in the Julian and Gregorian rules (years from March)
MarchYear(y, m) == IF m <= 2 THEN y - 1 ELSE y
MarchDay(m, d)  == ((153 * ((m + 9) % 12) + 2) \div 5) + d - 1
GregNo(y, m, d) == LET yy == MarchYear(y, m)
                   IN yy * 365 + (yy \div 4) - (yy \div 100) + (yy \div 400) + MarchDay(m, d)
JulNo(y, m, d)  == LET yy == MarchYear(y, m)
                   IN yy * 365 + (yy \div 4) + MarchDay(m, d) - 2     \* same origin as GregNo
OfMarch(yy, doy) == LET mp == (5 * doy + 2) \div 153
                        d  == doy - ((153 * mp + 2) \div 5) + 1
                        m  == IF mp < 10 THEN mp + 3 ELSE mp - 9
                    IN <<IF m <= 2 THEN yy + 1 ELSE yy, m, d>>
GregDate(n) ==
  LET era == n \div 146097
      doe == n % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
  IN OfMarch(yoe + era * 400, doe - (365 * yoe + (yoe \div 4) - (yoe \div 100)))
JulDate(n) ==
  LET j   == n + 2
      era == j \div 1461
      doe == j % 1461
      yoe == (doe - (doe \div 1460)) \div 365
  IN OfMarch(yoe + era * 4, doe - 365 * yoe)
Reform == GregNo(1582, 10, 15)

Earlier(y, m, d) == y < 1582 \/ (y = 1582 /\ (m < 10 \/ (m = 10 /\ d < 15)))
DayNo(cal, y, m, d) ==
  LET c == Canonical(cal) IN
  CASE c = "360"       -> y * 360 + (m - 1) * 30 + d - 1
    [] c = "noleap"    -> FixedNo(y, m, d, 365, 28)
    [] c = "all_leap"  -> FixedNo(y, m, d, 366, 29)
    [] c = "proleptic" -> GregNo(y, m, d)
    [] c = "julian"    -> JulNo(y, m, d)
    [] c = "standard"  -> IF Earlier(y, m, d) THEN JulNo(y, m, d) ELSE GregNo(y, m, d)
DateOf(cal, n) ==
  LET c == Canonical(cal) IN
  CASE c = "360"       -> <<n \div 360, ((n % 360) \div 30) + 1, (n % 30) + 1>>
    [] c = "noleap"    -> FixedDate(n, 365, 28)
    [] c = "all_leap"  -> FixedDate(n, 366, 29)
    [] c = "proleptic" -> GregDate(n)
    [] c = "julian"    -> JulDate(n)
    [] c = "standard"  -> IF n < Reform THEN JulDate(n) ELSE GregDate(n)

PerDay(unit) == CASE unit = "days" -> 1 [] unit = "hours" -> 24 [] unit = "minutes" -> 1440
                  [] unit = "seconds" -> 86400
\* the date of q eighths of a unit after ref = <<y, m, d, hour, minute>>
DateAfter(cal, unit, ref, q) ==
  LET whole == q \div 8
      per   == PerDay(unit)
      rest  == (whole % per) * (86400 \div per) + ((q % 8) * (86400 \div per)) \div 8
      secs  == ref[4] * 3600 + ref[5] * 60 + rest
  IN DateOf(cal, DayNo(cal, ref[1], ref[2], ref[3]) + (whole \div per) + (secs \div 86400))
=============================================================================
