------------------------------ MODULE SunTrace ------------------------------
(***************************************************************************)
(* Judges recorded daylight and shortwave against Sun; one record is one   *)
(* cell of a pair of runs (daily and sub-daily), one event one day.        *)
(*  lat (1/1000 degree), ts, yday (from 1), dl (day length, ms),           *)
(*  sw (daily mean, scale 1000), ss (steps, scale 1000), leap             *)
(***************************************************************************)
EXTENDS Sun, TraceLib
VARIABLES i, d, bad, cov, ev, done
vars == <<i, d, bad, cov, ev, done>>

Steps(r) == 1440 \div r.ts
StepOf(r, dd, k) == r.ss[(dd - 1) * Steps(r) + k]     \* k from 1
IdxOf(yday) == Min2(yday - 1, 364)                    \* day 366 repeats day 365

RECURSIVE Cumulate(_, _, _, _, _)
Cumulate(r, dd, k, acc, out) ==
  IF k > Steps(r) THEN out
  ELSE Cumulate(r, dd, k + 1, acc + StepOf(r, dd, k), Append(out, acc + StepOf(r, dd, k)))

DayClauses(r, dd) ==
  LET di == IdxOf(r.yday[dd])
      sg == Sg(r.lat, di)  cg == Cg(r.lat, di)
      hs == HssOfLength(r.dl[dd])
      g  == G(sg, cg, hs)
      n  == Steps(r)
      tot == n * r.sw[dd]
      C  == Cumulate(r, dd, 1, 0, << >>)
      complete == IsNum(r.dl[dd]) /\ IsNum(r.sw[dd]) /\ \A k \in 1..n : IsNum(StepOf(r, dd, k))
      want == CosHss(sg, cg)
      (* both sides multiplied by cg: no loss of accuracy near the poles *)
      lenOk == \/ Near(Mul(Cos(hs), cg), Clamp(-sg, -cg, cg), 12 + r.slack)
               \/ Doubtful(sg, cg) /\ (hs <= 6000 \/ hs >= Pi - 6000)
      tol(k) == LET m == k * r.ts IN ArrivedTol(sg, cg, hs, 50)
      rise == 720 - ((hs * 100) \div 436332)   \* minute of sunrise
      set  == 720 + ((hs * 100) \div 436332)
  IN IF ~complete THEN << <<r.id, "Complete", dd>> >>
     ELSE Fails(r.dl[dd] >= 0 /\ r.dl[dd] <= 86400001, <<r.id, "DayLengthRange", dd, r.dl[dd]>>)
       \o Fails(lenOk, <<r.id, "DayLength", dd, r.dl[dd], Acos(want)>>)
       \o Fails(\A k \in 1..n : StepOf(r, dd, k) >= 0, <<r.id, "NegativeShortwave", dd>>)
       \o Fails(r.sw[dd] >= 0 /\ r.sw[dd] * 10 <= (DailyToa(sg, cg, hs, di) + 60000) \div 100, <<r.id, "TopOfAtmosphere", dd, r.sw[dd], DailyToa(sg, cg, hs, di)>>)
       \o Fails(Near(C[n], tot, n + 2 + tot \div 200000), <<r.id, "DailyMean", dd, tot, C[n]>>)
       \o Fails(\A k \in 1..n : (k * r.ts <= rise - 1 \/ (k - 1) * r.ts >= set + 1) => StepOf(r, dd, k) = 0,
                <<r.id, "DarkNight", dd, rise, set>>)
       \o (IF g < 3000 \/ tot = 0 THEN << >>
           ELSE LET t == Mul(tot, ArrivedTol(sg, cg, hs, 50)) + n + 20
                    stride == IF r.ts >= 15 THEN 1 ELSE 15 \div r.ts
                    badk == {k \in {j \in 1..n : j % stride = 0} : ~Near(C[k], Mul(tot, Arrived(sg, cg, hs, k * r.ts)), t)}
                IN Fails(badk = {}, <<r.id, "SunElevation", dd, badk,
                          [k \in badk |-> <<C[k], Mul(tot, Arrived(sg, cg, hs, k * r.ts)), t>>]>>))

CovInit == [polar_day |-> 0, polar_night |-> 0, shape |-> 0, sunlit |-> 0, leap_end |-> 0, leap_feb |-> 0,
            south |-> 0, north |-> 0, pole |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r, dd) ==
  LET di == IdxOf(r.yday[dd])  sg == Sg(r.lat, di)  cg == Cg(r.lat, di)
  IN [c EXCEPT !.polar_day = @ + B(PolarDay(sg, cg)), !.polar_night = @ + B(PolarNight(sg, cg)),
               !.shape = @ + B(sg + cg > 3000), !.sunlit = @ + B(r.sw[dd] > 0),
               !.leap_end = @ + B(r.yday[dd] = 366), !.leap_feb = @ + B(r.leap /\ r.yday[dd] = 60),
               !.south = @ + B(r.lat < 0), !.north = @ + B(r.lat > 0), !.pole = @ + B(Abs(r.lat) = 90000)]

Init == i = 1 /\ d = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" \/ Len(r.ss) # Len(r.yday) * Steps(r)
        THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ d' = 1 /\ UNCHANGED <<cov, ev>>
        ELSE /\ bad' = AddBad(bad, DayClauses(r, d))
             /\ cov' = Count(cov, r, d) /\ ev' = ev + 1
             /\ IF d = Len(r.yday) THEN i' = i + 1 /\ d' = 1 ELSE i' = i /\ d' = d + 1
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, d, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
