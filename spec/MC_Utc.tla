------------------------------- MODULE MC_Utc -------------------------------
(* Walking east one step at a time turns the ring; nothing is lost, a full  *)
(* circle changes nothing, coarse steps of the turned ring are the turned   *)
(* sums of fine ones.                                                       *)
EXTENDS Utc, TLC
CONSTANTS N, V
VARIABLES rec, ring, a
vars == <<rec, ring, a>>
Init == rec \in [1..N -> 0..V] /\ ring = rec /\ a = 0
East == a < 2 * N /\ a' = a + 1 /\ ring' = Turn(ring, 1) /\ UNCHANGED rec
West == a > -2 * N /\ a' = a - 1 /\ ring' = Turn(ring, -1) /\ UNCHANGED rec
Next == East \/ West
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Path == ring = Turn(rec, a)                     \* only the place counts, not the way
Conserved == Sum(ring, N) = Sum(rec, N)
Circle == a % N = 0 => ring = rec
Back == Turn(ring, -a) = rec
Coarse == \A n \in 1..N : N % n = 0 => \A k \in 0..((N \div n) - 1) :
             SumAt(ring, k * n, n) = SumAt(rec, k * n + a, n)
Offsets == a = 0 => \A q \in -720..1440 :
   LET lon == q * 250 IN /\ OffsetMin(lon) \in -720..720
      /\ (OffsetMin(lon) - q) % 1440 = 0
      /\ (lon # -180000 /\ lon + 360000 # 180000) => OffsetMin(lon) = OffsetMin(lon + 360000)
=============================================================================
