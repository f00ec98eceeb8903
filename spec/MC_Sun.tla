------------------------------- MODULE MC_Sun -------------------------------
(* The geometry over all latitudes and days (walking through the year).     *)
EXTENDS Sun, TLC
CONSTANTS LatStep, DayStep
VARIABLES lat, i, sg, cg, h
vars == <<lat, i, sg, cg, h>>
See(l, d) == sg' = Sg(l, d) /\ cg' = Cg(l, d) /\ h' = Acos(CosHss(sg', cg'))
Init == lat \in {LatStep * k : k \in (-(90000 \div LatStep))..(90000 \div LatStep)} /\ i = 0
        /\ sg = Sg(lat, i) /\ cg = Cg(lat, i) /\ h = Acos(CosHss(sg, cg))
Next == i + DayStep <= 365 /\ i' = i + DayStep /\ See(lat, i + DayStep) /\ UNCHANGED lat
Spec == Init /\ [][Next]_vars
(* where one hemisphere has day the other has night *)
Hemispheres == Near(h + Hss(-lat, i), Pi, 4000)
Equator == lat = 0 => Near(h, Pi \div 2, 50)
(* polar day and night occur only within the circles and only in their season *)
Season == /\ h = Pi => (lat > 0) = (Decl(i) > 0) /\ Abs(lat) + MulDiv(Abs(Decl(i)), 10000, 174533) >= 89990
          /\ (h = 0 => (lat > 0) = (Decl(i) < 0))
Monotone == G(sg, cg, h) > 2000 =>
  LET t == Div(40, 2 * G(sg, cg, h)) + 5
      A == [k \in 0..24 |-> Arrived(sg, cg, h, 60 * k)]
  IN /\ \A k \in 0..23 : A[k] <= A[k + 1] + t
     /\ Near(A[0], 0, t) /\ Near(A[24], One, t) /\ Near(A[12], One \div 2, t)
     /\ \A k \in 0..12 : Near(A[k] + A[24 - k], One, 3 * t)
NoNightSun == G(sg, cg, h) > 2000 => \A k \in 0..24 :
   (sg + Mul(cg, Cos(HourAngle(60 * k))) < -20000) =>
      (Arrived(sg, cg, h, 60 * k) \in {0, One} \/ Near(Arrived(sg, cg, h, 60 * k), One, 5) \/ G(sg, cg, h) < 20000)
Energy == DailyToa(sg, cg, h, i) \in 0..600000000
(* the published bounds: between 11.9 and 12.1 hours at the equator ... *)
Spring == (i \in 78..82 \/ i \in 263..268) /\ Abs(lat) <= 60000 => Near(h, Pi \div 2, 80000)
=============================================================================
