------------------------------ MODULE UtcTrace ------------------------------
(***************************************************************************)
(* Judges pairs of recorded runs.  One record is one variable of one cell. *)
(*  kind "shift": U is the record with, L the one without UTC offset, L    *)
(*     with steps of tf minutes (tf divides ts and the offset)             *)
(*     acc: "sum" (precipitation), "mean" (wind, cloud, shortwave),        *)
(*          "inst" (everything else; only with tf = ts)                    *)
(*     ring: the variable wraps around inside the record                   *)
(*     tol: what a step may differ by; wtol: where the ring closes         *)
(*     (for shortwave the sun of the day beyond the end shines there)      *)
(*  kind "equal": U and L are to be the same (longitude a full circle      *)
(*     away; no offset requested)                                          *)
(***************************************************************************)
EXTENDS Utc, Fx, TraceLib
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>

Complete(s) == \A k \in 1..Len(s) : IsNum(s[k])
(* first fine step of local time which output step k (from 0) shows *)
First(r, k) == (k * r.ts + OffsetMin(r.lon)) \div r.tf
N(r)  == Len(r.L)
Per(r) == r.ts \div r.tf
InsideRec(r, k) == First(r, k) >= 0 /\ First(r, k) + Per(r) <= N(r)
(* the step compared with what the record without offset says *)
StepOk(r, k, tol) ==
  LET s == SumAt(r.L, First(r, k), Per(r))
  IN IF r.acc = "sum" THEN Near(r.U[k + 1], s, tol + Per(r))
     ELSE Near(Per(r) * r.U[k + 1], s, Per(r) * tol + Per(r))
WrapTol(r, k) == r.wtol
Shift(r) ==
  LET n == Len(r.U)
      ok == Len(r.L) * r.tf = n * r.ts /\ OffsetMin(r.lon) % r.tf = 0
  IN IF ~ok \/ ~Complete(r.U) \/ ~Complete(r.L) THEN << <<r.id, "Complete", r.var>> >>
     ELSE LET b1 == {k \in 0..(n - 1) : InsideRec(r, k) /\ ~StepOk(r, k, r.tol)}
              b2 == IF r.ring THEN {k \in 0..(n - 1) : ~InsideRec(r, k) /\ ~StepOk(r, k, WrapTol(r, k))} ELSE {}
              k1 == CHOOSE k \in b1 : TRUE  k2 == CHOOSE k \in b2 : TRUE
          IN Fails(b1 = {}, <<r.id, "Shift_" \o r.var, Cardinality(b1), k1, r.U[k1 + 1], SumAt(r.L, First(r, k1), Per(r)), Per(r)>>)
             \o Fails(b2 = {}, <<r.id, "Ring_" \o r.var, Cardinality(b2), k2, r.U[k2 + 1], SumAt(r.L, First(r, k2), Per(r)), Per(r)>>)
Equal(r) ==
  IF Len(r.U) # Len(r.L) \/ ~Complete(r.U) THEN << <<r.id, "Complete", r.var>> >>
  ELSE LET b == {k \in 1..Len(r.U) : ~Near(r.U[k], r.L[k], r.tol)}
       IN Fails(b = {}, <<r.id, r.why \o "_" \o r.var, Cardinality(b)>>)

CovInit == [shift |-> 0, east |-> 0, west |-> 0, aligned |-> 0, unaligned |-> 0, ring |-> 0,
            circle |-> 0, nooption |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r) ==
  [c EXCEPT !.shift = @ + B(r.kind = "shift"), !.east = @ + B(r.kind = "shift" /\ OffsetMin(r.lon) > 0),
            !.west = @ + B(r.kind = "shift" /\ OffsetMin(r.lon) < 0),
            !.aligned = @ + B(r.kind = "shift" /\ OffsetMin(r.lon) % r.ts = 0),
            !.unaligned = @ + B(r.kind = "shift" /\ OffsetMin(r.lon) % r.ts # 0),
            !.ring = @ + B(r.kind = "shift" /\ r.ring),
            !.circle = @ + B(r.kind = "equal" /\ r.why = "FullCircle"),
            !.nooption = @ + B(r.kind = "equal" /\ r.why = "NoOption")]
Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ done' = FALSE /\ i' = i + 1
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
        ELSE /\ bad' = AddBad(bad, IF r.kind = "shift" THEN Shift(r) ELSE Equal(r))
             /\ cov' = Count(cov, r) /\ ev' = ev + Len(r.U)
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
