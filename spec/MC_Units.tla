------------------------------ MODULE MC_Units ------------------------------
(* A value is relabelled again and again, through all supported units of    *)
(* its variable: label and value go on meaning the same quantity.           *)
EXTENDS Units, TLC
CONSTANTS Steps, Values
VARIABLES v, ts, val, unit, n
vars == <<v, ts, val, unit, n>>
Init == /\ v \in DOMAIN Supported /\ ts \in Steps /\ val \in {<<x, 1>> : x \in Values}
        /\ unit = Default(v) /\ n = 0
Request(u) == /\ n < 4 /\ n' = n + 1 /\ UNCHANGED <<v, ts>>
              /\ unit' = Label(v, u) /\ val' = RatMul(val, Factor(unit, Label(v, u), ts))
Next == \E u \in {Supported[v][k] : k \in 1..Len(Supported[v])} \cup {"", "furlong"} : Request(u)
Spec == Init /\ [][Next]_vars
Quantity == RatMul(val, Meaning(unit, ts))
Same == \E x \in Values : Quantity = RatMul(<<x, 1>>, Meaning(Default(v), ts))
Honest == IsSupported(v, unit)
Back == unit = Default(v) => \E x \in Values : val = <<x, 1>>
(* decimal arithmetic agrees with the exact one *)
Digits == LET d == Decimal(val)  k == Factor(unit, Default(v), ts)  w == DecMul(d[1], d[2], Decimal(k))  x == Decimal(RatMul(val, k))
          IN DecNear(w[1], w[2], x[1], x[2], 20)
=============================================================================
