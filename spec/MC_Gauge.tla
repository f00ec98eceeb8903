------------------------------ MODULE MC_Gauge ------------------------------
(* Any distribution of the water of any small record: what leaves the days  *)
(* arrives in the readings, shifted days keep their own water.              *)
EXTENDS Gauge
CONSTANTS ND, MaxP
VARIABLES P, ts, o, g
vars == <<P, ts, o, g>>

RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)

Init ==
  /\ P \in [1..ND -> 0..MaxP]
  /\ ts \in {t \in 1..DayLen : DayLen % t = 0}
  /\ o \in (-(DayLen \div 2))..(DayLen \div 2)
  /\ g = GaugeInit(P)
Next == \E q \in 0..MaxP : /\ CanPour(g, q, o, ND)
                           /\ g' = Pour(g, q, ts, o, ND)
                           /\ UNCHANGED <<P, ts, o>>
Spec == Init /\ [][Next]_vars

Done == g.pos = RecLen(ND)
Conserved == SumF(g.out, Len(g.out)) + g.reading + SumF(g.left, ND) = SumF(P, ND)
NonNegative == \A k \in 1..Len(g.out) : g.out[k] >= 0
RecordTotal == Done => SumF(g.out, Len(g.out)) = SumF(P, ND)
(* the steps of a shifted day hold its own water *)
OfDay(d, all) == {k \in 1..Len(g.out) :
                    IF all THEN d \in StepDays(k, ts, o, ND) ELSE StepDays(k, ts, o, ND) = {d}}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN g.out[k] + SumSet(S \ {k})
ShiftedDay == Done => \A d \in 1..ND :
   /\ SumSet(OfDay(d, FALSE)) <= P[d] /\ P[d] <= SumSet(OfDay(d, TRUE))
   /\ o % ts = 0 => SumSet(OfDay(d, FALSE)) = P[d] /\ SumSet(OfDay(d, TRUE)) = P[d]
(* the pieces of the steps tile the local record exactly *)
Tiling == Len(g.out) = g.pos \div ts
PiecesTile == g.pos = 0 =>
  \A d \in 1..ND : \A x \in 0..(DayLen - 1) :
    Cardinality({<<k, j>> \in (1..(RecLen(ND) \div ts)) \X {1, 2} :
       LET p == Pieces((k - 1) * ts, ts, o, ND)
       IN j <= Len(p) /\ p[j][1] = d /\ p[j][2] <= x /\ x < p[j][3]}) = 1
(* liveness: the record can always be completed *)
NoStuck == ~Done => ENABLED Next
=============================================================================
