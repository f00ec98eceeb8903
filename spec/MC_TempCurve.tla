---------------------------- MODULE MC_TempCurve ----------------------------
(* A thermometer read every Ts hours walks through every small record: any  *)
(* reading the conditions admit may follow.  The conditions never contradict *)
(* each other (there is always a next reading), keep the readings between    *)
(* the neighbouring extremes, and a reading at a knot shows the extreme.     *)
EXTENDS TempCurve, TLC
CONSTANTS NDays, Temps, Rises, Lengths, StepSet, Offs, Fracs
VARIABLES K, V, ts, t, x
vars == <<K, V, ts, t, x>>
Extremes == {p \in Temps \X Temps : p[1] <= p[2]}
SegOf(u) == CHOOSE j \in 1..(Len(K) - 1) : K[j] <= u /\ (u < K[j + 1])
Admits(u, y) == LET j == SegOf(u) IN Within(K[j], K[j + 1], V[j], V[j + 1], u, y, 0, 0)
All == LET lo == Lowest(V, 1, Len(V)) hi == Highest(V, 1, Len(V)) IN lo..hi
Init ==
  \E s \in StepSet, o \in Offs, f \in Fracs, r \in [1..NDays -> Rises], len \in Lengths,
     ex \in [0..NDays -> Extremes] :
     /\ ts = s
     /\ K = Times(r, [d \in 1..NDays |-> r[d] + len], NDays, 24, s, o, f)
     /\ V = Values(ex[0][1], ex[0][2], [d \in 1..NDays |-> ex[d][1]], [d \in 1..NDays |-> ex[d][2]])
     /\ t = 0 /\ x \in {v \in All : Admits(0, v)}
Read ==
  /\ t + ts < 24 * NDays
  /\ t' = t + ts
  /\ \E y \in All : /\ Admits(t + ts, y)
                    /\ (SegOf(t) = SegOf(t + ts)) => Onward(V[SegOf(t)], V[SegOf(t) + 1], x, y, 0)
                    /\ x' = y
  /\ UNCHANGED <<K, V, ts>>
Next == Read
Spec == Init /\ [][Next]_vars
Ordered == Increasing(K) /\ K[1] <= 0 /\ K[Len(K)] > 24 * NDays - ts
Progress == t + ts < 24 * NDays => ENABLED Read
InDay == LET d == (t \div 24) IN x >= Lowest(V, 2 * d - 1, 2 * d + 6) /\ x <= Highest(V, 2 * d - 1, 2 * d + 6)
AtKnot == \A j \in 1..Len(K) : K[j] = t => x = V[j]
T1 == {-3, 0, 3}
O1 == {0, 9, -10}
O2 == {0, 12, -12}
=============================================================================
