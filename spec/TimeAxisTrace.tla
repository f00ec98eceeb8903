--------------------------- MODULE TimeAxisTrace ---------------------------
(***************************************************************************)
(* Judges the files of recorded runs: the clock of TimeAxis is run along   *)
(* the stamps found in the files, in the order of the file names.          *)
(* A record has id, outcome, start, nd, ts, cal, pe, fk, fn and files, a   *)
(* sequence of [from, to, dates, mins, missing, order]: the dates of its   *)
(* name <<y,m,d,minute or -1>>, its stamps and the number of values which  *)
(* are missing although the cell is active.                                *)
(***************************************************************************)
EXTENDS TimeAxis, TraceLib
VARIABLES i, f, k, s, bad, cov, ev, done
vars == <<i, f, k, s, bad, cov, ev, done>>
Batch == 150

Stamp(x, j) == <<<<x.dates[j] \div 10000, (x.dates[j] \div 100) % 100, x.dates[j] % 100>>, x.mins[j]>>
NameOk(n, t) == /\ <<n[1], n[2], n[3]>> = t[1]
                /\ (n[4] = -1 \/ n[4] = t[2])

(* clauses for stamp j of file x, given the clock; r is the configuration *)
CheckStamp(r, x, fi, j, c) ==
  Fails(Running(r, c), <<r.id, "TooManySteps", fi, j>>)
  \o Fails(Stamp(x, j) = c.t, <<r.id, "Stamp", fi, j, Stamp(x, j), c.t>>)
  \o (IF j = 1 THEN Fails(OpensFile(r, c), <<r.id, "SamePeriodInTwoFiles", fi, c.t>>)
      ELSE Fails(~OpensFile(r, c), <<r.id, "PeriodBoundaryInsideFile", fi, j, c.t>>))
RECURSIVE Walk(_, _, _, _, _, _)
Walk(r, x, fi, j, last, a) ==          \* a: [c, bad]
  IF j > last \/ Len(a.bad) > 20 THEN a
  ELSE Walk(r, x, fi, j + 1, last,
            [c |-> Tick(r, a.c), bad |-> a.bad \o CheckStamp(r, x, fi, j, a.c)])

(* what opening all files together shows: their stamps one after another    *)
Together(r, o) ==
  LET RECURSIVE Cat(_, _)
      Cat(q, m) == IF q > Len(r.files) THEN << >> ELSE (IF m THEN r.files[q].mins ELSE r.files[q].dates) \o Cat(q + 1, m)
  IN Fails(o[1] = Cat(1, FALSE) /\ o[2] = Cat(1, TRUE), <<r.id, "Together", Len(o[1])>>)
     \o Fails(o[3] = 0, <<r.id, "TogetherMissing", o[3]>>)

CovInit == [standard |-> 0, noleap |-> 0, period_ending |-> 0, leap_day |-> 0, new_year |-> 0,
            split_files |-> 0, opened |-> 0, sub_daily |-> 0, daily |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r) ==
  [c EXCEPT !.standard = @ + B(r.cal = "standard"), !.noleap = @ + B(r.cal = "noleap"),
            !.period_ending = @ + B(r.pe), !.split_files = @ + B(Len(r.files) > 1), !.opened = @ + Len(r.opened),
            !.leap_day = @ + B(\E q \in 1..Len(r.files) : \E j \in 1..Len(r.files[q].dates) : r.files[q].dates[j] % 10000 = 229),
            !.new_year = @ + B(\E q \in 1..Len(r.files) : \E j \in 1..Len(r.files[q].dates) : r.files[q].dates[j] % 10000 = 101),
            !.sub_daily = @ + B(r.ts < 1440), !.daily = @ + B(r.ts = 1440)]

Init == i = 1 /\ f = 1 /\ k = 0 /\ bad = << >> /\ ev = 0 /\ done = FALSE /\ cov = CovInit
        /\ s = IF T[1].outcome = "ok" THEN Clock(T[1]) ELSE << >>
NextRec == /\ i' = i + 1 /\ f' = 1 /\ k' = 0
           /\ s' = IF i < Len(T) /\ T[i + 1].outcome = "ok" THEN Clock(T[i + 1]) ELSE << >>
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok"
        THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ NextRec /\ UNCHANGED <<cov, ev>>
        ELSE IF f > Len(r.files)
        THEN /\ bad' = AddBad(bad, Fails(~Running(r, s), <<r.id, "StepsMissing", s.k, NSteps(r)>>)
                          \o Fails(Len(r.files) > 0, <<r.id, "NoFiles">>)
                          \o (IF Len(r.opened) = 0 THEN << >> ELSE Together(r, r.opened[1])))
             /\ cov' = Count(cov, r) /\ NextRec /\ ev' = ev + 1
        ELSE LET x == r.files[f]  n == Len(x.dates)
                 last == IF k + Batch < n THEN k + Batch ELSE n
                 w == Walk(r, x, f, k + 1, last, [c |-> s, bad |-> << >>])
             IN IF n = 0 THEN bad' = AddBad(bad, << <<r.id, "EmptyFile", f>> >>)
                              /\ f' = f + 1 /\ UNCHANGED <<i, k, s, cov, ev>>
                ELSE /\ bad' = AddBad(bad, w.bad \o
                          (IF last < n THEN << >>
                           ELSE Fails(NameOk(x.from, Stamp(x, 1)) /\ NameOk(x.to, Stamp(x, n)),
                                      <<r.id, "FileName", f, x.from, x.to, Stamp(x, 1), Stamp(x, n)>>)
                             \o Fails(x.missing = 0, <<r.id, "MissingValues", f, x.missing>>)))
                     /\ s' = w.c /\ ev' = ev + last - k
                     /\ IF last < n THEN k' = last /\ f' = f ELSE k' = 0 /\ f' = f + 1
                     /\ UNCHANGED <<i, cov>>
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, f, k, s, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
