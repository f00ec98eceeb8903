--------------------------- MODULE PlacementTrace ---------------------------
(***************************************************************************)
(* Judges recorded output grids against Placement.  A record is one run:   *)
(*  dims, shape, coord: of the domain; odims, oshape, ocoord: of the       *)
(*   output (coordinates 1e3, one sequence per dimension)                  *)
(*  mask: flat, 1e3; steps, perday: number of steps, per day               *)
(*  miss: variable -> flat sequence of the number of missing steps         *)
(*  prec, raw: flat sequences of the series of precipitation found and of  *)
(*   the daily forcing (1e3)                                               *)
(*  solo: cells (flat index), each with vals: variable -> <<found, alone>>, *)
(*   the series of the run and of a run of this cell alone; tol: variable  *)
(***************************************************************************)
EXTENDS Placement, TraceLib, Fx
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>

RECURSIVE SumOf(_, _, _)
SumOf(s, a, b) == IF a > b THEN 0 ELSE s[a] + SumOf(s, a + 1, b)
G(r) == [shape |-> r.shape, mask |-> r.mask]
CellClauses(r, c) ==
  LET f == Flat(r.shape, c)
  IN IF ~Active(G(r), c)
     THEN Fails(\A v \in DOMAIN r.miss : r.miss[v][f] = r.steps, <<r.id, "InactiveCell", f>>)
     ELSE Fails(\A v \in DOMAIN r.miss : r.miss[v][f] = 0, <<r.id, "ActiveCell", f>>)
          \o Fails((\A k \in 1..Len(r.prec[f]) : IsNum(r.prec[f][k])) /\ Len(r.prec[f]) = r.steps =>
                   \A d \in 1..Len(r.raw[f]) :
                      Near(SumOf(r.prec[f], (d - 1) * r.perday + 1, d * r.perday), r.raw[f][d], r.perday + 2), <<r.id, "OwnForcing", f>>)
Same(a, b, tol) == Len(a) = Len(b) /\ (a = b \/ \A k \in 1..Len(a) : Near(a[k], b[k], tol))
Solo(r, x) == Concat(LAMBDA k : LET v == r.vars[k]
                                IN Fails(Same(x.vals[v][1], x.vals[v][2], r.tol[v]), <<r.id, "OwnResult", v, x.cell>>), Len(r.vars))
RECURSIVE Over(_, _)
Over(r, S) == IF S = {} THEN << >> ELSE LET c == CHOOSE c \in S : TRUE IN CellClauses(r, c) \o Over(r, S \ {c})
Run(r) ==
  LET fit == r.odims = r.dims /\ r.oshape = r.shape
  IN Fails(fit, <<r.id, "Dimensions", r.odims, r.oshape>>)
     \o (IF ~fit THEN << >> ELSE
         Fails(r.ocoord = r.coord, <<r.id, "Coordinates", r.ocoord, r.coord>>)
         \o Over(r, Cells(r.shape)) \o Concat(LAMBDA k : Solo(r, r.solo[k]), Len(r.solo)))

CovInit == [run |-> 0, cell |-> 0, inactive |-> 0, oned |-> 0, twod |-> 0, solo |-> 0, nanmask |-> 0, negmask |-> 0, daily |-> 0, chunked |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r) ==
  LET C == Cells(r.shape)
  IN [c EXCEPT !.run = @ + 1, !.cell = @ + Cardinality({x \in C : Active(G(r), x)}), !.inactive = @ + Cardinality({x \in C : ~Active(G(r), x)}),
        !.oned = @ + B(Len(r.shape) = 1), !.twod = @ + B(Len(r.shape) = 2), !.solo = @ + Len(r.solo), !.daily = @ + B(r.perday = 1),
        !.chunked = @ + B(r.chunked),
        !.nanmask = @ + B(\E k \in 1..Len(r.mask) : r.mask[k] = NaN), !.negmask = @ + B(\E k \in 1..Len(r.mask) : r.mask[k] < 0 /\ r.mask[k] # NaN)]
Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ i' = i + 1 /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
        ELSE bad' = AddBad(bad, Run(r)) /\ cov' = Count(cov, r) /\ ev' = ev + Cardinality(Cells(r.shape))
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
