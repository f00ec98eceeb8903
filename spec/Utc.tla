-------------------------------- MODULE Utc --------------------------------
(***************************************************************************)
(* Local time and UTC.  A record of N steps is a ring; the UTC view of a   *)
(* cell is its local record turned by the cell's offset.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* minutes by which local time is ahead of UTC, longitude in 1/1000 degree  *)
(* (in steps of a quarter of a degree: whole minutes)                       *)
Rem360(lon) == LET x == lon % 360000 IN IF x > 180000 THEN x - 360000 ELSE x
OffsetMin(lon) == IF lon = -180000 THEN -720 ELSE (Rem360(lon) * 4) \div 1000

(* the ring turned by a places: place k shows what was at k + a *)
Turn(s, a) == [k \in 1..Len(s) |-> s[((k - 1 + a) % Len(s)) + 1]]
At(s, k) == s[(k % Len(s)) + 1]                    \* k from 0, around the ring
RECURSIVE SumAt(_, _, _)
SumAt(s, k, n) == IF n = 0 THEN 0 ELSE At(s, k) + SumAt(s, k + 1, n - 1)
=============================================================================
