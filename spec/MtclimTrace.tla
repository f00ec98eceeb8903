---------------------------- MODULE MtclimTrace ----------------------------
(***************************************************************************)
(* Judges recorded daily estimates against Mtclim and Windows.  A record   *)
(* is one cell of a run at daily step, an event one day.                   *)
(*  P, TN, TX: state (90 days) and forcing, 1e3; yday; vp (Pa, 1e3),        *)
(*  sw (1e4), pet (1e5), tskc (1e6); lat 1/1000 degree; elev 1/10 m;        *)
(*  lr 1e-7 K/m; coef, scalar 1e6; thr 1e3; cloud option, see MtclimDay        *)
(***************************************************************************)
EXTENDS MtclimDay
VARIABLES i, d, s90, s30, bad, cov, ev, done
vars == <<i, d, s90, s30, bad, cov, ev, done>>

CovInit == [day |-> 0, wet |-> 0, threshold |-> 0, dry |-> 0, floor |-> 0, season |-> 0, frost |-> 0, short |-> 0, sun |-> 0, deardorff |-> 0, elevated |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r, n) ==
  LET a == 90 + n
  IN [c EXCEPT !.day = @ + 1, !.wet = @ + B(r.P[a] > r.thr), !.threshold = @ + B(r.P[a] <= r.thr /\ r.P[a] > 0), !.dry = @ + B(r.P[a] = 0),
               !.floor = @ + B(Season(s90) = 8000), !.season = @ + B(Season(s90) > 8000), !.frost = @ + B(r.TN[a] < 0),
               !.short = @ + B(r.sw[n] < 200000), !.sun = @ + B(r.sw[n] > 1000000), !.deardorff = @ + B(r.cloud = "cloud_deardorff"),
               !.elevated = @ + B(r.elev > 10000)]
Ok(r) == r.outcome = "ok" /\ Len(r.P) = 90 + Len(r.yday) /\ Len(r.vp) = Len(r.yday) /\ Len(r.sw) = Len(r.yday)
         /\ Len(r.pet) = Len(r.yday) /\ Len(r.tskc) = Len(r.yday)
Load(n) == IF n <= Len(T) /\ Ok(T[n]) THEN s90' = Window(T[n].P, 91, 90) /\ s30' = Window(Range(T[n]), 91, 30)
           ELSE s90' = 0 /\ s30' = 0
Init == /\ i = 1 /\ d = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
        /\ s90 = (IF Ok(T[1]) THEN Window(T[1].P, 91, 90) ELSE 0) /\ s30 = (IF Ok(T[1]) THEN Window(Range(T[1]), 91, 30) ELSE 0)
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF ~Ok(r) THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ d' = 1 /\ Load(i + 1) /\ UNCHANGED <<cov, ev>>
        ELSE /\ bad' = AddBad(bad, DayClauses(r, d, s90, s30, {"tskc", "pet", "vp", "sw"}, NaN, NaN, NaN))
             /\ cov' = Count(cov, r, d) /\ ev' = ev + 1
             /\ IF d = Len(r.yday) THEN i' = i + 1 /\ d' = 1 /\ Load(i + 1)
                ELSE /\ i' = i /\ d' = d + 1
                     /\ s90' = Slide(s90, r.P, 90 + d, 90)
                     /\ s30' = s30 - (r.TX[61 + d] - r.TN[61 + d]) + (r.TX[91 + d] - r.TN[91 + d])
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, d, s90, s30, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
