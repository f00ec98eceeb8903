----------------------------- MODULE TempTrace -----------------------------
(***************************************************************************)
(* Judges recorded sub-daily temperature against TempCurve.  One record is *)
(* one cell of one run, one event one stretch between two knots.           *)
(*  lat (1/1000 degree), ts, off (UTC offset in minutes or 0), frac        *)
(*  (1/10000), yday (from 1), tn0 tx0 (last day of the state), tn, tx, T   *)
(*  (1/10000 C)                                                            *)
(***************************************************************************)
EXTENDS TempCurve, Sun, TraceLib
VARIABLES i, j, K, V, bad, cov, ev, done
vars == <<i, j, K, V, bad, cov, ev, done>>

Day == 14400          \* times in tenths of a minute
Tol == 20
E == 3
IdxOf(yday) == Min2(yday - 1, 364)
CH(r, d) == CosHss(Sg(r.lat, IdxOf(r.yday[d])), Cg(r.lat, IdxOf(r.yday[d])))
(* (nearly) no night or no day: no sunrise to go by *)
Polar(r, d) == Abs(CH(r, d)) >= 980000
HalfDay(r, d) == MulDiv(Acos(CH(r, d)), 1000, 436332)     \* tenths of a minute
Rise(r) == [d \in 1..Len(r.yday) |-> IF Polar(r, d) THEN 2400 ELSE 7200 - HalfDay(r, d)]
Set(r)  == [d \in 1..Len(r.yday) |-> IF Polar(r, d) THEN 9600 ELSE 7200 + HalfDay(r, d)]
KOf(r) == Times(Rise(r), Set(r), Len(r.yday), Day, 10 * r.ts, 10 * r.off, r.frac)
VOf(r) == Values(r.tn0, r.tx0, r.tn, r.tx)
DayOf(r, k) == Max2(1, Min2(Len(r.yday), (k - 1) \div 2))
Loose(r, k) == \E d \in Max2(1, DayOf(r, k) - 1)..Min2(Len(r.yday), DayOf(r, k) + 1) : Polar(r, d)

(* samples k (from 0) between the knots j and j+1; the judging takes those  *)
(* from half open intervals so that each sample belongs to one of them      *)
N(r) == Len(r.T)
Lo(r, a) == Max2(0, -((-a) \div (10 * r.ts)))
Samples(r, a, b) == Lo(r, a)..Min2(N(r) - 1, Lo(r, b) - 1)

(* beyond the last knot (far east of UTC): still in the range *)
Beyond(r) ==
  LET n == Len(V)
      S == {k \in 0..(N(r) - 1) : 10 * r.ts * k >= K[n]}
      b == {k \in S : ~(IsNum(r.T[k + 1]) /\ r.T[k + 1] >= Lowest(V, n - 1, n) - E /\ r.T[k + 1] <= Highest(V, n - 1, n) + E)}
  IN Fails(b = {}, <<r.id, "BeyondLast", b>>) \o Fails(K[1] <= 0, <<r.id, "NotCovered">>)

Stretch(r, jj) ==
  LET a == K[jj]  b == K[jj + 1]  x == V[jj]  y == V[jj + 1]
      S == Samples(r, a, b)
      t(k) == 10 * r.ts * k
      T1(k) == r.T[k + 1]
      lo == Lowest(V, jj - 3, jj + 4)  hi == Highest(V, jj - 3, jj + 4)
      near(k) == t(k) - a <= Tol \/ b - t(k) <= Tol
      lo1 == Lowest(V, jj - 1, jj + 2)  hi1 == Highest(V, jj - 1, jj + 2)
      loose == Loose(r, jj) \/ Loose(r, jj + 1) \/ b <= a
      miss == {k \in S : ~IsNum(T1(k))}
      b1 == {k \in S : T1(k) < lo - E \/ T1(k) > hi + E}
      b2 == {k \in S : ~(IF near(k) THEN T1(k) >= lo1 - E /\ T1(k) <= hi1 + E
                                    ELSE Within(a, b, x, y, t(k), T1(k), Tol, E))}
      b3 == {k \in S : k + 1 \in S /\ ~near(k) /\ ~near(k + 1) /\ ~Onward(x, y, T1(k), T1(k + 1), E)}
      w(s) == LET k == CHOOSE k \in s : \A m \in s : k <= m IN <<jj, k, T1(k), a, b, x, y>>
  IN IF miss # {} THEN << <<r.id, "Complete", jj>> >>
     ELSE Fails(b1 = {}, <<r.id, "Range", w(b1)>>)
          \o (IF loose THEN << >>
              ELSE Fails(b2 = {}, <<r.id, IF jj % 2 = 1 THEN "MinToMax" ELSE "MaxToMin", w(b2)>>)
                   \o Fails(b3 = {}, <<r.id, "Monotone", w(b3)>>))

CovInit == [stretch |-> 0, exact |-> 0, polar |-> 0, atknot |-> 0, first |-> 0, last |-> 0, utc |-> 0, crossing |-> 0, swap |-> 0, beyond |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r, jj) ==
  LET S == Samples(r, K[jj], K[jj + 1])
      l == Loose(r, jj) \/ Loose(r, jj + 1)
  IN IF S = {} /\ jj > 1 THEN c
     ELSE [c EXCEPT !.stretch = @ + 1, !.exact = @ + B(~l), !.polar = @ + B(l),
                    !.atknot = @ + B(~l /\ \E k \in S : 10 * r.ts * k - K[jj] < 100),
                    !.first = @ + B(jj <= 3), !.last = @ + B(jj >= Len(K) - 2), !.beyond = @ + B(jj = 1 /\ K[Len(K)] <= 10 * r.ts * (N(r) - 1)), !.utc = @ + B(r.off # 0),
                    !.crossing = @ + B(jj % 2 = 0), !.swap = @ + B(jj % 2 = 0 /\ V[jj + 1] > V[jj])]

Ok(r) == /\ r.outcome = "ok" /\ Len(r.T) * r.ts = 1440 * Len(r.yday) /\ Len(r.tn) = Len(r.yday) /\ Len(r.tx) = Len(r.yday)
Load(n) == IF n <= Len(T) /\ Ok(T[n]) THEN K' = KOf(T[n]) /\ V' = VOf(T[n]) ELSE K' = << >> /\ V' = << >>
Init == /\ i = 1 /\ j = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
        /\ K = (IF Ok(T[1]) THEN KOf(T[1]) ELSE << >>) /\ V = (IF Ok(T[1]) THEN VOf(T[1]) ELSE << >>)
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF ~Ok(r) THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ j' = 1 /\ Load(i + 1) /\ UNCHANGED <<cov, ev>>
        ELSE /\ bad' = AddBad(bad, Stretch(r, j) \o (IF j = 1 THEN Beyond(r) ELSE << >>))
             /\ cov' = Count(cov, r, j) /\ ev' = ev + 1
             /\ IF j = Len(K) - 1 THEN i' = i + 1 /\ j' = 1 /\ Load(i + 1) ELSE i' = i /\ j' = j + 1 /\ UNCHANGED <<K, V>>
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, j, K, V, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
