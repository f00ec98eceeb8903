--------------------------- MODULE MC_Emissivity ---------------------------
(* The sky over a day: temperature, vapor and cloud change in small steps;  *)
(* every pair of parameterizations gives a plausible emissivity.            *)
EXTENDS Emissivity, TLC
CONSTANTS TStep, VStep, CStep
VARIABLES type, cloud, t, v, c
vars == <<type, cloud, t, v, c>>
Init == type \in LwTypes /\ cloud \in LwClouds /\ t = 243 /\ v = VStep /\ c = 0
(* saturation at t bounds v (hPa): a crude upper bound *)
MaxV(x) == IF x < 258 THEN 2 ELSE IF x < 273 THEN 6 ELSE IF x < 288 THEN 17 ELSE IF x < 303 THEN 42 ELSE 70
Next == \/ t + TStep <= 318 /\ t' = t + TStep /\ UNCHANGED <<type, cloud, v, c>>
        \/ v + VStep <= MaxV(t) /\ v' = v + VStep /\ UNCHANGED <<type, cloud, t, c>>
        \/ c + CStep <= 100 /\ c' = c + CStep /\ UNCHANGED <<type, cloud, t, v>>
Spec == Init /\ [][Next]_vars
CF == c * 10000
E0 == Clear(type, R(v), R(t) + 150000)
E1 == Cloudy(cloud, E0, CF)
Plausible == E0 > 500000 /\ E0 < (IF type = "idso" THEN 1400000 ELSE 1180000)
NoCloud   == c = 0 => Near(E1, E0, 2)
Clouds    == E0 <= One => E1 >= E0 - 2
Overcast  == c = 100 => (IF cloud = "cloud_deardorff" THEN Near(E1, One, 3) ELSE Near(E1, Mul(1170000, E0), 3))
Deardorff == cloud = "cloud_deardorff" /\ E0 <= One => E1 <= One + 2
More      == c + CStep <= 100 /\ E0 <= One => Cloudy(cloud, E0, CF + CStep * 10000) >= E1 - 2
MoreVapor == Clear(type, R(v + 1), R(t) + 150000) >= E0 - 2
Energy    == LET l == Longwave(type, cloud, R(v), R(t) + 150000, CF) IN l > R(60) /\ l < R(1000)
=============================================================================
