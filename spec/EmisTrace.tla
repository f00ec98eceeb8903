----------------------------- MODULE EmisTrace -----------------------------
(***************************************************************************)
(* Judges recorded longwave against Emissivity.                            *)
(*  kind "lw": one cell of one run, an event is one step: type, cloud as   *)
(*    configured, temp (C, 1e4), vp (kPa, 1e6), tskc (1e6), lw (1e4)        *)
(*  kind "other": variable var in two runs which differ in their           *)
(*    parameterization only (U, L): the same                               *)
(*  kind "cloud": tskc with the default (D) and the Deardorff (C) option:  *)
(*    D = sqrt(C / 0.65)                                                   *)
(***************************************************************************)
EXTENDS Emissivity, TraceLib
VARIABLES i, k, bad, cov, ev, done
vars == <<i, k, bad, cov, ev, done>>

Step(r, n) ==
  LET t == r.temp[n] * 100 + 273150000
      want == Longwave(r.type, r.cloud, r.vp[n] * 10, t, r.tskc[n])
  IN Fails(Near(r.lw[n], want \div 100, want \div 400000 + 300), <<r.id, "Longwave_" \o r.type \o "_" \o r.cloud, n, r.temp[n], r.vp[n], r.tskc[n], r.lw[n], want \div 100>>)

Whole(r) ==
  IF r.kind = "lw" THEN << >>
  ELSE IF r.kind = "other"
  THEN LET b == {n \in 1..Len(r.U) : ~(IsNum(r.U[n]) /\ Near(r.U[n], r.L[n], r.tol))}
       IN Fails(Len(r.U) = Len(r.L) /\ b = {}, <<r.id, "Other_" \o r.var, Cardinality(b)>>)
  ELSE LET b == {n \in 1..Len(r.U) : ~Near(Sq(r.U[n]), Div(r.L[n], 650000), 8)}
       IN Fails(Len(r.U) = Len(r.L) /\ b = {}, <<r.id, "CloudEstimate", b>>)

CovInit == [default |-> 0, tva |-> 0, anderson |-> 0, brutsaert |-> 0, satterlund |-> 0, idso |-> 0, prata |-> 0,
            deardorff |-> 0, tvacloud |-> 0, other |-> 0, cloud |-> 0, cold |-> 0, warm |-> 0]
B(x) == IF x THEN 1 ELSE 0
CountStep(c, r, n) ==
  [c EXCEPT ![r.type] = @ + 1, !.deardorff = @ + B(r.cloud = "cloud_deardorff"), !.tvacloud = @ + B(r.cloud = "default"),
            !.cold = @ + B(r.temp[n] < -150000), !.warm = @ + B(r.temp[n] > 250000)]
CountRec(c, r) == [c EXCEPT !.other = @ + B(r.kind = "other"), !.cloud = @ + B(r.kind = "cloud")]
Full(r) == r.kind = "lw" /\ Len(r.lw) > 0 /\ Len(r.temp) = Len(r.lw) /\ Len(r.vp) = Len(r.lw) /\ Len(r.tskc) = Len(r.lw)
Finite(r) == \A n \in 1..Len(r.lw) : IsNum(r.lw[n]) /\ IsNum(r.temp[n]) /\ IsNum(r.vp[n]) /\ IsNum(r.tskc[n])
Init == i = 1 /\ k = 0 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ k' = 0 /\ UNCHANGED <<cov, ev>>
        ELSE IF r.kind = "lw" /\ ~(Full(r) /\ Finite(r))
        THEN bad' = AddBad(bad, << <<r.id, "Complete">> >>) /\ i' = i + 1 /\ k' = 0 /\ UNCHANGED <<cov, ev>>
        ELSE IF k = 0
        THEN /\ bad' = AddBad(bad, Whole(r)) /\ cov' = CountRec(cov, r) /\ ev' = ev
             /\ IF Full(r) THEN k' = 1 /\ i' = i ELSE k' = 0 /\ i' = i + 1
        ELSE /\ bad' = AddBad(bad, Step(r, k)) /\ cov' = CountStep(cov, r, k) /\ ev' = ev + 1
             /\ IF k = Len(r.lw) THEN i' = i + 1 /\ k' = 0 ELSE i' = i /\ k' = k + 1
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, k, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
