------------------------------ MODULE DepsTrace ------------------------------
(***************************************************************************)
(* Judges pairs of runs against the dependence relation.  A record:         *)
(*  sub, mix; afirst, alast, bfirst, blast: the days of the two runs        *)
(*  from, to: the days compared; vars                                       *)
(*  same: "exact": nothing may differ in the cells compared, else "reach"   *)
(*  changes: << <<input, first day, last day, <<cells>> >> ... >>           *)
(*  out: << <<cell, variable, D>> ... >>, D the greatest relative difference *)
(*   per day in 1e-7 (0: below 1e-9)                                        *)
(*  poke: << >> or << [inp, cell, day, size, P, dtr, tskc, pet, rain] >>:   *)
(*   a single change, with the base series of the cell: P (1e3) from day    *)
(*   from-WP+1 on, the others (1e3; tskc 1e6) from day from on              *)
(***************************************************************************)
EXTENDS Deps, TraceLib
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>

Tolerance == 200        \* 2e-5: what the tolerance of the dew point amounts to
Touches(r, ch, c) == \E k \in 1..Len(ch[4]) : ch[4][k] = c
(* the part of a change the runs read at all *)
Lo(r, ch) == LET f == IF r.afirst < r.bfirst THEN r.afirst ELSE r.bfirst IN IF ch[2] < f - WP + 1 THEN f - WP + 1 ELSE ch[2]
Hi(r, ch) == LET l == IF r.alast > r.blast THEN r.alast ELSE r.blast IN IF ch[3] > l THEN l ELSE ch[3]
Real(r, ch) == ch[1] = "S" \/ Lo(r, ch) <= Hi(r, ch)
Seen(r, c, v, d) ==
  \/ \E k \in 1..Len(r.changes) : LET ch == r.changes[k] IN
        Touches(r, ch, c) /\ Real(r, ch) /\ Sees(v, r.sub, ch[1], r.mix, d, Lo(r, ch), Hi(r, ch))
  \/ (r.afirst # r.bfirst /\ (SeesBegin(v, r.sub, d, r.afirst) \/ SeesBegin(v, r.sub, d, r.bfirst)))
  \/ (r.alast # r.blast /\ (SeesEnd(v, r.sub, d, r.alast) \/ SeesEnd(v, r.sub, d, r.blast)))
Loose(r, c, v) ==
  v \in Iterated(r.sub) /\ (\/ r.afirst # r.bfirst \/ r.alast # r.blast
                            \/ \E k \in 1..Len(r.changes) : Touches(r, r.changes[k], c) /\ Real(r, r.changes[k]))
Limit(r, c, v) == IF r.same # "exact" /\ Loose(r, c, v) THEN Tolerance ELSE 0
(* the first day on which x differs but must not *)
Clause(r, x) ==
  LET c == x[1]  v == x[2]  lim == Limit(r, c, v)
      off == {k \in 1..Len(x[3]) : x[3][k] > lim}
      wrong == IF r.same = "exact" THEN off ELSE {k \in off : ~Seen(r, c, v, r.from + k - 1)}
      reason == IF r.same = "exact" THEN "Unchanged" ELSE IF r.changes = << >> THEN "SameRecord" ELSE "Reach"
  IN Fails(Len(x[3]) = r.to - r.from + 1, <<r.id, "Days", v, c>>)
     \o Fails(wrong = {}, <<r.id, reason, v, c, IF wrong = {} THEN 0 ELSE LET k == CHOOSE k \in wrong : \A m \in wrong : k <= m IN <<r.from + k - 1, x[3][k]>>>>)

(* a single large change must be felt as far as the windows reach *)
RECURSIVE SumOf(_, _, _)
SumOf(s, a, b) == IF a > b THEN 0 ELSE s[a] + SumOf(s, a + 1, b)
DOf(r, c, v) == LET k == CHOOSE k \in 1..Len(r.out) : r.out[k][1] = c /\ r.out[k][2] = v IN r.out[k][3]
MustT(r, p, d) == LET k == d - r.from + 1 IN
  (p.inp = "T" /\ d > p.day /\ d <= p.day + WT - 1 /\ p.size >= 6 /\ p.dtr[k] >= 1000 /\ p.dtr[k] <= 25000 /\ p.tskc[k] >= 10000 /\ p.rain[k] = 0)
MustP(r, p, d) == LET k == d - r.from + 1 IN
  (p.inp = "P" /\ d > p.day /\ d <= p.day + WP - 1 /\ p.pet[k] >= 300
   /\ LET S == SumOf(p.P, k, k + WP - 1) \div 1000
          M == IF p.size > 0 THEN S + p.size ELSE S
          N == IF p.size > 0 THEN S ELSE S + p.size
          z == IF p.size > 0 THEN p.size ELSE 0 - p.size
      IN N >= 22 /\ M < 3000 /\ p.pet[k] * z * 10 >= 3 * M * M)
Must(r, p) ==
  LET days == {d \in r.from..r.to : d >= p.day}
      t == {d \in days : MustT(r, p, d) /\ DOf(r, p.cell, "tskc")[d - r.from + 1] < 50}
      q == {d \in days : MustP(r, p, d) /\ DOf(r, p.cell, "vapor_pressure")[d - r.from + 1] < 1000}
  IN Fails(t = {}, <<r.id, "Window30", p.day, t>>) \o Fails(q = {}, <<r.id, "Window90", p.day, q>>)

Run(r) == Concat(LAMBDA k : Clause(r, r.out[k]), Len(r.out)) \o Concat(LAMBDA k : Must(r, r.poke[k]), Len(r.poke))

CovInit == [pair |-> 0, exact |-> 0, reach |-> 0, series |-> 0, days |-> 0, moved |-> 0, sub |-> 0, poke |-> 0, mustT |-> 0, mustP |-> 0]
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Sum2(_, _)
Sum2(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum2(F, n - 1)
Count(c, r) ==
  [c EXCEPT !.pair = @ + 1, !.exact = @ + B(r.same = "exact"), !.reach = @ + B(r.same # "exact"), !.series = @ + Len(r.out),
     !.sub = @ + B(r.sub), !.poke = @ + Len(r.poke), !.days = @ + Len(r.out) * (r.to - r.from + 1),
     !.moved = @ + Sum2(LAMBDA k : B(\E m \in 1..Len(r.out[k][3]) : r.out[k][3][m] > 0), Len(r.out)),
     !.mustT = @ + Sum2(LAMBDA k : Cardinality({d \in r.from..r.to : MustT(r, r.poke[k], d)}), Len(r.poke)),
     !.mustP = @ + Sum2(LAMBDA k : Cardinality({d \in r.from..r.to : MustP(r, r.poke[k], d)}), Len(r.poke))]
Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ i' = i + 1 /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
        ELSE bad' = AddBad(bad, Run(r)) /\ cov' = Count(cov, r) /\ ev' = ev + Len(r.out)
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
