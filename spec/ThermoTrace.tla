---------------------------- MODULE ThermoTrace ----------------------------
(***************************************************************************)
(* Judges recorded humidity and pressure against Thermo.  A record is one  *)
(* cell of one run, an event one step.                                     *)
(*  T (C, 1e4), vp (kPa, 1e6), rh (1e4), ap (kPa, 1e4), sh (1e8), elev     *)
(*  (1/10 m), lr (1e-7 K/m); miss: number of missing values by variable    *)
(*  daily: mdl, vpd (Pa, 1e2) of the same configuration at daily step      *)
(***************************************************************************)
EXTENDS Thermo, TraceLib
VARIABLES i, k, bad, cov, ev, done
vars == <<i, k, bad, cov, ev, done>>

Step(r, n) ==
  LET t == r.T[n] * 100  sat == Svp(t)  vp == r.vp[n]  ap == AirPressure(t, r.elev, r.lr)
      rel == vp \div 3000 + 3
  IN Fails(vp > 0, <<r.id, "Positive", n, vp>>)
     \o Fails(vp <= sat + rel, <<r.id, "Saturation", n, r.T[n], vp, sat>>)
     \o Fails(r.rh[n] >= 0 /\ r.rh[n] <= 1000000, <<r.id, "RelHumidRange", n, r.rh[n]>>)
     \o Fails(Near(r.rh[n], RelHum(vp, sat) \div 100, 600000 \div Max2(1, Min2(600000, sat \div 500)) + 400), <<r.id, "RelHumid", n, r.T[n], vp, sat, r.rh[n], RelHum(vp, sat) \div 100>>)
     \o Fails(Near(r.ap[n], ap \div 100, 12), <<r.id, "AirPressure", n, r.T[n], r.ap[n], ap \div 100>>)
     \o Fails(Near(r.sh[n], SpecHum(vp, r.ap[n] * 100), SpecHum(vp, r.ap[n] * 100) \div 2000 + 150), <<r.id, "SpecHumid", n, vp, r.ap[n], r.sh[n], SpecHum(vp, r.ap[n] * 100)>>)

RECURSIVE Misses(_, _)
Misses(r, S) == IF S = {} THEN << >>
                ELSE LET v == CHOOSE v \in S : TRUE
                     IN Fails(r.miss[v] = 0, <<r.id, "Missing_" \o v, r.miss[v]>>) \o Misses(r, S \ {v})
Whole(r) == Misses(r, DOMAIN r.miss)
            \o Fails(\A n \in 1..Len(r.vpd) : r.vpd[n] > 0, <<r.id, "PositiveDaily">>)

CovInit == [step |-> 0, saturated |-> 0, dry |-> 0, frost |-> 0, heat |-> 0, high |-> 0, below |-> 0, lapse |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r, n) ==
  [c EXCEPT !.step = @ + 1, !.saturated = @ + B(r.rh[n] >= 999990), !.dry = @ + B(r.rh[n] < 300000),
            !.frost = @ + B(r.T[n] < -200000), !.heat = @ + B(r.T[n] > 300000), !.high = @ + B(r.elev > 30000),
            !.below = @ + B(r.elev < 0), !.lapse = @ + B(r.lr # 65000)]
Full(r) == /\ Len(r.vp) = Len(r.T) /\ Len(r.rh) = Len(r.T) /\ Len(r.ap) = Len(r.T) /\ Len(r.sh) = Len(r.T)
           /\ \A n \in 1..Len(r.T) : IsNum(r.T[n]) /\ IsNum(r.vp[n]) /\ IsNum(r.rh[n]) /\ IsNum(r.ap[n]) /\ IsNum(r.sh[n])
Init == i = 1 /\ k = 0 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ k' = 0 /\ UNCHANGED <<cov, ev>>
        ELSE IF k = 0
        THEN /\ bad' = AddBad(bad, Whole(r) \o Fails(Full(r), <<r.id, "Incomplete">>)) /\ UNCHANGED <<cov, ev>>
             /\ IF Full(r) /\ Len(r.T) > 0 THEN k' = 1 /\ i' = i ELSE k' = 0 /\ i' = i + 1
        ELSE /\ bad' = AddBad(bad, Step(r, k)) /\ cov' = Count(cov, r, k) /\ ev' = ev + 1
             /\ IF k = Len(r.T) THEN i' = i + 1 /\ k' = 0 ELSE i' = i /\ k' = k + 1
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, k, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
