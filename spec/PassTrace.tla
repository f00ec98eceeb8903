----------------------------- MODULE PassTrace -----------------------------
(***************************************************************************)
(* Judges recorded passthrough runs.  A record is one cell of a daily and  *)
(* a sub-daily run, an event one day.  Fields of MtclimDay and             *)
(*  supplied: the supplied estimates, given: their daily values            *)
(*   (shortwave 1e4, vapor_pressure Pa 1e3, tskc 1e6, pet 1e5, tdew 1e4,    *)
(*    tfmax 1e6, t_day 1e4, longwave 1e4);                                 *)
(*  daylight: shortwave is given as the mean over the daylight; dl (ms);   *)
(*  ts, utc; sub-daily sss (1e3), lws (1e4), temps (1e4), vps (kPa, 1e6),   *)
(*  tskcs (1e6); lwtype                                                    *)
(***************************************************************************)
EXTENDS MtclimDay, Passthrough
E == INSTANCE Emissivity
VARIABLES i, d, s90, s30, bad, cov, ev, done
vars == <<i, d, s90, s30, bad, cov, ev, done>>

Set(r) == {r.supplied[k] : k \in 1..Len(r.supplied)}
Short == [vapor_pressure |-> "vp", tskc |-> "tskc", pet |-> "pet", tdew |-> "dew", tfmax |-> "tf", t_day |-> "td"]
What(r) == {Short[v] : v \in Estimated(Set(r))}
Given(r, v, n, f) == IF v \in Set(r) THEN r.given[v][n] * f ELSE NaN
Repeat(r, v, n, out, tol) ==
  IF v \in Set(r) THEN Fails(Near(out, r.given[v][n], tol), <<r.id, "Repeats_" \o v, n, out, r.given[v][n]>>) ELSE << >>

N(r) == 1440 \div r.ts
At(s, r, n, k) == s[(n - 1) * N(r) + k]
RECURSIVE DaySum(_, _, _, _, _)
DaySum(s, r, n, k, acc) == IF k > N(r) THEN acc ELSE DaySum(s, r, n, k + 1, acc + At(s, r, n, k))

Wanted(r, n) == IF r.daylight THEN Mul(r.given["shortwave"][n], Div(r.dl[n], 86400000)) ELSE r.given["shortwave"][n]
Daily(r, n) ==
  Fails(Near(r.sw[n], Wanted(r, n), 60), <<r.id, IF r.daylight THEN "ShortwaveDaylight" ELSE "ShortwaveWhole", n, r.sw[n], Wanted(r, n)>>)
  \o Repeat(r, "tskc", n, r.tskc[n], 2) \o Repeat(r, "pet", n, r.pet[n], 2) \o Repeat(r, "vapor_pressure", n, r.vp[n], 2)

(* sub-daily: means over the day, the shape of longwave, vapor pressure    *)
(* within the given values around the day unless the air is saturated      *)
Est(r, n, k) == E!Longwave(r.lwtype, r.cloud, At(r.vps, r, n, k) * 10, At(r.temps, r, n, k) * 100 + 273150000, At(r.tskcs, r, n, k)) \div 1000
RECURSIVE EstSum(_, _, _, _)
EstSum(r, n, k, acc) == IF k > N(r) THEN acc ELSE EstSum(r, n, k + 1, acc + Est(r, n, k))
Sub(r, n) ==
  LET di == IdxOf(r.yday[n])  sg == Sg(r.lat, di)  cg == Cg(r.lat, di)  hs == Acos(CosHss(sg, cg))
      sun == G(sg, cg, hs) > 3000
      m == N(r)
      tot == DaySum(r.sss, r, n, 1, 0)
      lo == Max2(1, n - 2)  hi == Min2(Len(r.yday), n + 2)
      near == {r.given["vapor_pressure"][x] : x \in lo..hi}
      vmin == CHOOSE x \in near : \A y \in near : x <= y
      vmax == CHOOSE x \in near : \A y \in near : x >= y
      vbad == {k \in 1..m : LET v == At(r.vps, r, n, k)  sat == Svp(At(r.temps, r, n, k) * 100)
                            IN v > vmax + 3 \/ v < Min2(vmin - 3, sat - sat \div 2000 - 3)}
      mean == EstSum(r, n, 1, 0) \div m
      lbad == {k \in 1..m : mean <= 0 \/ r.given["longwave"][n] <= 0 \/ At(r.lws, r, n, k) < 0 \/ ~Near(Div(At(r.lws, r, n, k) * 100, r.given["longwave"][n] * 100), Div(Est(r, n, k), mean), 600)}
  IN (IF sun /\ ~r.utc THEN Fails(Near(tot, m * (Wanted(r, n) \div 10), 2 * m + (tot \div 50000)), <<r.id, "ShortwaveMean", n, tot, m * (Wanted(r, n) \div 10)>>) ELSE << >>)
     \o (IF "longwave" \in Set(r) /\ ~r.utc
         THEN Fails(Near(DaySum(r.lws, r, n, 1, 0), m * r.given["longwave"][n], 2 * m), <<r.id, "LongwaveMean", n, DaySum(r.lws, r, n, 1, 0), m * r.given["longwave"][n]>>)
              \o (IF n <= 2 THEN Fails(lbad = {}, <<r.id, "LongwaveShape", n, lbad>>) ELSE << >>)
         ELSE << >>)
     \o (IF "vapor_pressure" \in Set(r) THEN Fails(vbad = {}, <<r.id, "VaporBetween", n, vbad, vmin, vmax>>) ELSE << >>)
     \o (IF "tskc" \in Set(r) /\ ~r.utc
         THEN Fails(\A k \in 1..m : Near(At(r.tskcs, r, n, k), r.given["tskc"][n], 3), <<r.id, "CloudMean", n>>) ELSE << >>)

Complete(r, n) == /\ \A k \in 1..N(r) : IsNum(At(r.sss, r, n, k)) /\ IsNum(At(r.lws, r, n, k)) /\ IsNum(At(r.vps, r, n, k))
                                       /\ IsNum(At(r.temps, r, n, k)) /\ IsNum(At(r.tskcs, r, n, k))
                  /\ IsNum(r.sw[n]) /\ IsNum(r.tskc[n]) /\ IsNum(r.vp[n]) /\ IsNum(r.pet[n])
Clauses(r, n) ==
  IF ~Complete(r, n) THEN << <<r.id, "Complete", n>> >>
  ELSE Daily(r, n) \o Sub(r, n)
       \o DayClauses(r, n, s90, s30, What(r), Given(r, "tfmax", n, 1), Given(r, "t_day", n, 100), Given(r, "tdew", n, 100))

CovInit == [day |-> 0, whole |-> 0, daylight |-> 0, longwave |-> 0, vapor_pressure |-> 0, tskc |-> 0, pet |-> 0, tdew |-> 0,
            tfmax |-> 0, t_day |-> 0, none |-> 0, est_vp |-> 0, est_pet |-> 0, est_tskc |-> 0, polar |-> 0, utc |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r, n) ==
  LET S == Set(r)
  IN [c EXCEPT !.day = @ + 1, !.whole = @ + B(~r.daylight), !.daylight = @ + B(r.daylight), !.longwave = @ + B("longwave" \in S),
        !.vapor_pressure = @ + B("vapor_pressure" \in S), !.tskc = @ + B("tskc" \in S), !.pet = @ + B("pet" \in S), !.tdew = @ + B("tdew" \in S),
        !.tfmax = @ + B("tfmax" \in S), !.t_day = @ + B("t_day" \in S), !.none = @ + B(S = {}),
        !.est_vp = @ + B("vapor_pressure" \notin S), !.est_pet = @ + B("pet" \notin S), !.est_tskc = @ + B("tskc" \notin S),
        !.polar = @ + B(r.dl[n] = 0 \/ r.dl[n] >= 86400000), !.utc = @ + B(r.utc)]
Ok(r) == /\ r.outcome = "ok" /\ Len(r.P) = 90 + Len(r.yday)
         /\ \A s \in {r.vp, r.sw, r.pet, r.tskc, r.dl} : Len(s) = Len(r.yday)
         /\ \A s \in {r.sss, r.lws, r.vps, r.temps, r.tskcs} : Len(s) = N(r) * Len(r.yday)
Load(n) == IF n <= Len(T) /\ Ok(T[n]) THEN s90' = Window(T[n].P, 91, 90) /\ s30' = Window(Range(T[n]), 91, 30)
           ELSE s90' = 0 /\ s30' = 0
Init == /\ i = 0 /\ d = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE /\ s90 = 0 /\ s30 = 0
Start == i = 0 /\ i' = 1 /\ Load(1) /\ UNCHANGED <<d, bad, cov, ev, done>>
Judge ==
  /\ i \in 1..Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF ~Ok(r) THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ d' = 1 /\ Load(i + 1) /\ UNCHANGED <<cov, ev>>
        ELSE /\ bad' = AddBad(bad, Clauses(r, d))
             /\ cov' = Count(cov, r, d) /\ ev' = ev + 1
             /\ IF d = Len(r.yday) THEN i' = i + 1 /\ d' = 1 /\ Load(i + 1)
                ELSE /\ i' = i /\ d' = d + 1
                     /\ s90' = Slide(s90, r.P, 90 + d, 90)
                     /\ s30' = s30 - (r.TX[61 + d] - r.TN[61 + d]) + (r.TX[91 + d] - r.TN[91 + d])
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, d, s90, s30, bad, cov, ev>>
Next == Start \/ Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
