------------------------------ MODULE TimeAxis ------------------------------
(***************************************************************************)
(* The time axis of the output and its distribution over files.            *)
(*                                                                         *)
(* A clock walks over the record in steps of ts minutes, in the calendar   *)
(* of the run.  Every tick is stamped (at the beginning of the step, or at *)
(* its end) and goes to the file of the output period its stamp falls in;  *)
(* a tick in a new period opens the next file.                             *)
(*                                                                         *)
(* A configuration c is a record [start, nd, ts, cal, pe, fk, fn]: fk/fn   *)
(* describe the output frequency: "none"; "min" - every fn minutes from    *)
(* the midnight before the first stamp; "week" - weeks whose first day is  *)
(* fn (0 = Monday); "month" - every fn calendar months; "monthrel" - every *)
(* fn months counted from the first one.                                   *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, TLC

(* a point in time: <<date, minute of the day>> *)
AddMinutes(t, n, cal) ==           \* 0 <= n <= 1440
  IF t[2] + n < 1440 THEN <<t[1], t[2] + n>>
  ELSE <<NextDate(t[1], cal), t[2] + n - 1440>>
Before(s, t) == DateInt(s[1]) < DateInt(t[1]) \/ (s[1] = t[1] /\ s[2] < t[2])

FirstStamp(c) == LET t == <<c.start, 0>> IN IF c.pe THEN AddMinutes(t, c.ts, c.cal) ELSE t
NSteps(c) == c.nd * (1440 \div c.ts)

(* the output period of a stamp; f is the first stamp *)
Months(a) == a[1] * 12 + a[2] - 1
MinutesFrom(f, t, n) ==     \* (minutes since midnight before f) \div n
  LET days == DayNumber(t[1]) - DayNumber(f[1])
  IN IF n % 1440 = 0 THEN days \div (n \div 1440)
     ELSE (days * 1440 + t[2]) \div n
Period(c, t) ==
  LET f == FirstStamp(c)
  IN CASE c.fk = "none" -> 0
       [] c.fk = "min" -> MinutesFrom(f, t, c.fn)
       [] c.fk = "week" -> (DayNumber(t[1]) + 2 - c.fn) \div 7
       [] c.fk = "month" -> Months(t[1]) \div c.fn
       [] c.fk = "monthrel" -> (Months(t[1]) - Months(f[1])) \div c.fn

(********************************* machine *********************************)
(* clock: stamp of the next tick; k: ticks done; file: period of the open  *)
(* file (-1: none); nfiles; first/last: first and last stamp of the open   *)
(* file; names: of the closed files                                        *)
Clock(c) == [t |-> FirstStamp(c), k |-> 0, file |-> -1, nfiles |-> 0,
             first |-> <<>>, last |-> <<>>]
Running(c, s) == s.k < NSteps(c)
OpensFile(c, s) == s.file = -1 \/ Period(c, s.t) # s.file
Tick(c, s) ==
  [t |-> AddMinutes(s.t, c.ts, c.cal), k |-> s.k + 1, file |-> Period(c, s.t),
   nfiles |-> IF OpensFile(c, s) THEN s.nfiles + 1 ELSE s.nfiles,
   first |-> IF OpensFile(c, s) THEN s.t ELSE s.first, last |-> s.t]
=============================================================================
