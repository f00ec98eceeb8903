------------------------------ MODULE Calendar ------------------------------
(* Dates <<y, m, d>> of the calendars "standard" and "noleap". *)
EXTENDS Integers, Sequences
Leap(y, cal) == cal = "standard" /\ y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m, cal) ==
  CASE m = 2 -> (IF Leap(y, cal) THEN 29 ELSE 28)
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> 31
NextDate(a, cal) ==
  IF a[3] < MonthLen(a[1], a[2], cal) THEN <<a[1], a[2], a[3] + 1>>
  ELSE IF a[2] < 12 THEN <<a[1], a[2] + 1, 1>> ELSE <<a[1] + 1, 1, 1>>
PrevDate(a, cal) ==
  IF a[3] > 1 THEN <<a[1], a[2], a[3] - 1>>
  ELSE IF a[2] > 1 THEN <<a[1], a[2] - 1, MonthLen(a[1], a[2] - 1, cal)>>
  ELSE <<a[1] - 1, 12, 31>>
(* day of the year by the calendar on the wall, 1..366 *)
RECURSIVE DaysBefore(_, _, _)
DaysBefore(y, m, cal) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1, cal) + MonthLen(y, m - 1, cal)
DayOfYear(a, cal) == DaysBefore(a[1], a[2], cal) + a[3]
(* days since 0000-03-01 of the proleptic Gregorian calendar *)
DayNumber(a) ==
  LET y == IF a[2] <= 2 THEN a[1] - 1 ELSE a[1]
      m == (a[2] + 9) % 12
  IN 365 * y + y \div 4 - y \div 100 + y \div 400 + (153 * m + 2) \div 5 + a[3] - 1
(* 0 = Monday *)
WeekDay(a) == (DayNumber(a) + 2) % 7
DateInt(a) == a[1] * 10000 + a[2] * 100 + a[3]
RECURSIVE AddDays(_, _, _)
AddDays(a, n, cal) == IF n = 0 THEN a
                      ELSE IF n > 0 THEN AddDays(NextDate(a, cal), n - 1, cal)
                      ELSE AddDays(PrevDate(a, cal), n + 1, cal)
=============================================================================
