----------------------------- MODULE MC_Mtclim -----------------------------
(* The joint iteration of dew point, shortwave and evaporation, started     *)
(* from the minimum temperature, for all kinds of days.                     *)
EXTENDS Mtclim, TLC
CONSTANTS TMins, Ranges, Seasons, Lats, Days, Elevs, Scalars
VARIABLES raw, day, dew, n, err
vars == <<raw, day, dew, n, err>>
Day(tn, dtr, sea, lat, di, el, wet) ==
  LET sg == Sg(lat, di)  cg == Cg(lat, di)  h == Acos(CosHss(sg, cg))  pr == PressureRatio(el, 65000)
  IN [tn |-> R(tn), dtr |-> R(dtr), sea |-> sea, pr |-> pr, wet |-> wet,
      toa |-> DailyToa(sg, cg, h, di), clear |-> ClearSky(sg, cg, h, pr, 12),
      tf |-> TfMax(R(dtr), R(10), wet, 750000)]
Init == /\ raw \in TMins \X Ranges \X Seasons \X Lats \X Days \X Elevs \X BOOLEAN
        /\ day = << >> /\ dew = 0 /\ n = -1 /\ err = R(100)
Begin == /\ n = -1 /\ day' = Day(raw[1], raw[2], raw[3], raw[4], raw[5], raw[6], raw[7])
         /\ dew' = R(raw[1]) /\ n' = 0 /\ UNCHANGED <<raw, err>>
SwOf(x) == Shortwave(day.toa, day.clear, Svp(x), day.tf)
PetOf(x) == Pet(SwOf(x), DayTemp(day.tn, day.tn + day.dtr, 450000), day.pr)
Again(x) == Dew(PetOf(x), day.tn, day.sea, day.dtr)
Iterate == /\ n \in 0..11 /\ LET x == Again(dew) IN dew' = x /\ err' = Abs(x - dew)
           /\ n' = n + 1 /\ UNCHANGED <<raw, day>>
Next == Begin \/ Iterate
Spec == Init /\ [][Next]_vars
(* the iteration settles quickly, and where it settles does not depend on   *)
(* where it started                                                         *)
Settles  == (n >= 6 => err <= 3000) /\ (n >= 10 => err <= 300)
Unique   == n = 0 => LET it[k \in 0..8, x \in {day.tn - R(20), day.tn + R(5)}] == IF k = 0 THEN x ELSE Again(it[k - 1, x])
                     IN Near(it[8, day.tn - R(20)], it[8, day.tn + R(5)], 3000)
Dewy     == n > 0 => dew < day.tn + R(10) /\ dew > day.tn - R(70)
Cloudy   == n >= 0 => (day.tf > 0 /\ day.tf <= One)
Wetter   == n >= 0 => day.tf = (IF day.wet THEN Mul(750000, Transmit(day.dtr, R(10))) ELSE Transmit(day.dtr, R(10)))
Bounded  == n >= 0 => SwOf(dew) >= 0 /\ SwOf(dew) <= day.toa /\ PetOf(dew) >= 0 /\ PetOf(dew) <= R(20)
Clear    == n >= 0 => day.clear >= 0 /\ day.clear <= 950000
T1 == {-35, -5, 12, 24}
L1 == {-66000, -30000, 0, 45000, 80000}
T2 == {-45, -30, -15, -5, 0, 5, 12, 20, 26}
L2 == {-80000, -66000, -45000, -30000, -10000, 0, 20000, 35000, 50000, 62000, 70000}
=============================================================================
