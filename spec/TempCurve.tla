----------------------------- MODULE TempCurve -----------------------------
(***************************************************************************)
(* The course of the temperature through a record: knots (times K, values  *)
(* V, alternating minimum and maximum), one day before the record to one   *)
(* day after it, and what any curve through them has to satisfy.           *)
(***************************************************************************)
EXTENDS Fx

(* minimum one step before sunrise, maximum at the given fraction of the    *)
(* daylight; rise and set per day 1..nd relative to midnight, day, ts, off  *)
(* all in the same unit; frac in 1/10000                                    *)
KMin(rise, d, day, ts, off) == rise[d] + (d - 1) * day - ts - off
KMax(rise, set, d, day, ts, off, frac) == KMin(rise, d, day, ts, off) + MulDiv(set[d] - rise[d], frac, 10000)
Times(rise, set, nd, day, ts, off, frac) ==
  [j \in 1..(2 * nd + 4) |->
     LET d == (j - 1) \div 2                      \* 0 .. nd+1
         e == Max2(1, Min2(nd, d))
         x == IF j % 2 = 1 THEN KMin(rise, e, day, ts, off) ELSE KMax(rise, set, e, day, ts, off, frac)
     IN IF d = 0 THEN x - day ELSE IF d = nd + 1 THEN x + day ELSE x]
(* the day before the record is the last of the state, the one after it     *)
(* repeats the last                                                         *)
Values(tn0, tx0, tn, tx) ==
  LET nd == Len(tn)
  IN [j \in 1..(2 * nd + 4) |->
       LET d == (j - 1) \div 2  e == Max2(1, Min2(nd, d))
       IN IF d = 0 THEN IF j = 1 THEN tn0 ELSE tx0
          ELSE IF j % 2 = 1 THEN tn[e] ELSE tx[e]]
Increasing(K) == \A j \in 1..(Len(K) - 1) : K[j] < K[j + 1]

(* where on the way from x to y, time a to b, temperature T at t may be: in *)
(* the range, and no further from an end than three times the straight line *)
Within(a, b, x, y, t, T, tol, e) ==
  /\ T >= Min2(x, y) - e /\ T <= Max2(x, y) + e
  /\ Abs(T - x) <= MulDiv(3 * Abs(y - x), Min2(t - a + tol, b - a), b - a) + e
  /\ Abs(T - y) <= MulDiv(3 * Abs(y - x), Min2(b - t + tol, b - a), b - a) + e
(* monotone from one to the next sample on the way from x to y *)
Onward(x, y, T1, T2, e) == IF x <= y THEN T2 >= T1 - e ELSE T2 <= T1 + e
Lowest(V, j, n)  == LET s == {V[k] : k \in Max2(1, j)..Min2(Len(V), n)} IN CHOOSE v \in s : \A u \in s : v <= u
Highest(V, j, n) == LET s == {V[k] : k \in Max2(1, j)..Min2(Len(V), n)} IN CHOOSE v \in s : \A u \in s : v >= u
=============================================================================
