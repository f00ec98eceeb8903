----------------------------- MODULE MC_TimeAxis -----------------------------
(* Every start day around the ends of months and years, every frequency:    *)
(* no stamp is lost or repeated, files are disjoint, increasing and can be  *)
(* told apart by the dates (with the time of day, if need be) of their      *)
(* first and last step.                                                     *)
EXTENDS TimeAxis
CONSTANTS MaxDays, Steps, Starts
VARIABLES c, s, log, names
vars == <<c, s, log, names>>
Freqs == {<<"none", 1>>, <<"min", 1440>>, <<"min", 2880>>, <<"min", 720>>, <<"min", 480>>, <<"min", 1080>>,
          <<"week", 0>>, <<"week", 3>>, <<"month", 1>>, <<"month", 3>>, <<"month", 12>>, <<"monthrel", 2>>}
Days == [sm |-> {<<2000, 2, 27>>, <<2001, 2, 27>>, <<1900, 2, 28>>, <<1999, 12, 30>>, <<2000, 3, 30>>},
         deep |-> {<<y, m, d>> : y \in {1900, 1999, 2000, 2001, 2004}, m \in {2, 12}, d \in {26, 27, 28}}
                  \cup {<<2000, 2, 29>>, <<2004, 2, 29>>, <<2001, 3, 31>>, <<2001, 6, 30>>}]
Init ==
  /\ c \in [start : Days[Starts], nd : 1..MaxDays, ts : Steps, cal : {"standard", "noleap"},
            pe : BOOLEAN, fk : {f[1] : f \in Freqs}, fn : {f[2] : f \in Freqs}]
  /\ <<c.fk, c.fn>> \in Freqs
  /\ c.start[3] <= MonthLen(c.start[1], c.start[2], c.cal)
  /\ s = Clock(c) /\ log = << >> /\ names = << >>
Key(t) == DateInt(t[1]) * 10
Next ==
  /\ Running(c, s)
  /\ log' = Append(log, s.t)
  /\ names' = IF OpensFile(c, s) THEN Append(names, <<s.t, s.t, Period(c, s.t)>>)
              ELSE [names EXCEPT ![Len(names)] = <<names[Len(names)][1], s.t, names[Len(names)][3]>>]
  /\ s' = Tick(c, s) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Increasing == \A k \in 1..(Len(log) - 1) : Before(log[k], log[k + 1])
ValidDates == \A k \in 1..Len(log) :
  LET a == log[k][1] IN a[2] \in 1..12 /\ a[3] \in 1..MonthLen(a[1], a[2], c.cal) /\ log[k][2] \in 0..1439
CountRight == s.k = Len(log) /\ s.nfiles = Len(names)
FilesDisjoint == \A i, j \in 1..Len(names) : i < j =>
   names[i][3] < names[j][3] /\ Before(names[i][2], names[j][1])
FilesTile == Len(names) > 0 =>
   /\ names[1][1] = log[1] /\ names[Len(names)][2] = log[Len(log)]
   /\ \A i \in 1..(Len(names) - 1) : \E k \in 1..(Len(log) - 1) : log[k] = names[i][2] /\ log[k + 1] = names[i + 1][1]
NamesDistinct == \A i, j \in 1..Len(names) : i # j => <<names[i][1], names[i][2]>> # <<names[j][1], names[j][2]>>
(* the last stamp of a finished run *)
EndRight == ~Running(c, s) => 
   LET e == AddDays(c.start, c.nd - 1, c.cal)
   IN log[Len(log)] = IF c.pe THEN <<NextDate(e, c.cal), 0>> ELSE <<e, 1440 - c.ts>>
WholeDays == ~Running(c, s) => Len(log) = c.nd * (1440 \div c.ts)
=============================================================================
