--------------------------- MODULE MC_Passthrough ---------------------------
(* every set of supplied variables, every order of the estimates *)
EXTENDS Passthrough
VARIABLES supplied, src
vars == <<supplied, src>>
Init == supplied \in SUBSET Estimable /\ src = Begin(supplied)
Next == /\ \E v \in Estimable : Ready(src, v) /\ src' = Estimate(src, v)
        /\ UNCHANGED supplied
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Kept     == \A v \in supplied : src[v] = {v}
Unique   == \A v \in Estimable : src[v] \in {{}, Origin(v, supplied)}
NoStuck  == (~ \E v \in Estimable : Ready(src, v)) => \A v \in Estimable : src[v] # {}
(* the supplied dew point keeps evaporation out of the vapor pressure, etc. *)
Screens  == src["vapor_pressure"] # {} /\ "tdew" \in supplied => "shortwave" \notin src["vapor_pressure"]
Complete == <>(\A v \in Estimable : src[v] = Origin(v, supplied))
=============================================================================
