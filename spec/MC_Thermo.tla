----------------------------- MODULE MC_Thermo -----------------------------
(* A parcel of air is warmed, cooled, lifted, moistened and dried in all    *)
(* ways; what condenses is lost.                                            *)
EXTENDS Thermo, TLC
CONSTANTS TLo, THi, TStep, ElevStep, ElevMax, Parts
VARIABLES t, elev, vp
vars == <<t, elev, vp>>
Sat(x) == Svp(R(x))
Init == t \in {TLo, 0, THi} /\ elev = 0 /\ vp = Sat(t) \div Parts
Cap(v, x) == Min2(v, Sat(x))
Warm == t + TStep <= THi /\ t' = t + TStep /\ UNCHANGED <<elev, vp>>
Cool == t - TStep >= TLo /\ t' = t - TStep /\ vp' = Cap(vp, t - TStep) /\ UNCHANGED elev
Lift == elev + ElevStep <= ElevMax /\ elev' = elev + ElevStep /\ UNCHANGED <<t, vp>>
Wet  == \E k \in 1..Parts : vp' = Cap(Mul(Sat(t), (k * One) \div Parts), t) /\ UNCHANGED <<t, elev>>
Next == Warm \/ Cool \/ Lift \/ Wet
Spec == Init /\ [][Next]_vars
P == AirPressure(R(t), elev * 10, 65000)
Positive  == vp > 0 /\ P > R(20) /\ P < R(120)
Bounded   == vp <= Sat(t) /\ RelHum(vp, Sat(t)) \in 0..R(100)
Saturated == vp = Sat(t) => RelHum(vp, Sat(t)) = R(100)
Humid     == SpecHum(vp, P) > 0 /\ SpecHum(vp, P) < 30000000
Warmer    == t + TStep <= THi => Sat(t + TStep) > Sat(t)
Higher    == AirPressure(R(t), elev * 10 + 1000, 65000) < P
(* values of the literature, kPa: ice point, boiling is out of range *)
Table     == Near(Sat(0), 610780, 5) /\ Near(Sat(20), 2338000, 2000) /\ Near(Svp(R(35)), 5624000, 6000)
             /\ Near(Svp(R(-20)), 103200, 1000)
Lo == -51
=============================================================================
