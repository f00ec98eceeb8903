----------------------------- MODULE ReaderTrace -----------------------------
(***************************************************************************)
(* Judges runs on inputs in some layout (Reader).  A record has             *)
(*   f, s, d: forcing, state and domain, each [kind, n, ops]                *)
(*   ok, err; daily: were daily values recorded                             *)
(*   got: << <<label, label of the value found there>> ... >>, the second   *)
(*   <<0>> for the constant, <<-1>> for a value of nowhere                  *)
(*   same: is every recorded variable the same as in a run on plain files;  *)
(*   aspects: their names                                                   *)
(*   wrote: cells which have values in the output                           *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>
R == INSTANCE Reader

Source(x) == R!Replay(IF x.kind = "grid" THEN R!Grid(x.n) ELSE R!Cells(x.n), x.ops)
Check(r) ==
  LET f == Source(r.f)  s == Source(r.s)  d == Source(r.d)
      complete == R!Complete(f) /\ R!Complete(s) /\ R!Complete(d)
      lost == R!Affected(f) \cup R!Affected(s) \cup R!Affected(d)
      wrote == {r.wrote[k] : k \in 1..Len(r.wrote)}
      Wrong == {k \in 1..Len(r.got) : r.got[k][2] # R!Read(f, r.got[k][1])}
  IN IF complete
     THEN Fails(r.ok, <<r.id, "Reads", r.fmt, r.err>>)
          \o (IF ~r.ok THEN << >> ELSE
              Fails(Wrong = {}, <<r.id, "ByLabel", r.fmt, {r.got[k] : k \in Wrong}>>)
              \o Fails(\A k \in 1..Len(r.same) : r.same[k], <<r.id, "Same", r.fmt, {r.aspects[k] : k \in {x \in 1..Len(r.same) : ~r.same[x]}}>>))
     ELSE Fails(~r.ok, <<r.id, "Fails", r.fmt, Cardinality(lost)>>)
          \o Fails(lost \cap wrote = {}, <<r.id, "NoOutput", r.fmt, lost \cap wrote>>)

CovInit == [complete |-> 0, incomplete |-> 0, values |-> 0, constants |-> 0, netcdf |-> 0, data |-> 0, ascii |-> 0, binary |-> 0,
            several |-> 0, permute |-> 0, turn |-> 0, widen |-> 0, split |-> 0, const |-> 0, exclude |-> 0, style |-> 0, order |-> 0, columns |-> 0,
            foreign |-> 0, longer |-> 0, drop |-> 0, twice |-> 0, unfile |-> 0, damage |-> 0, shorter |-> 0, ragged |-> 0, surplus |-> 0]
N(b) == IF b THEN 1 ELSE 0
Ops(r) == r.f.ops \o r.s.ops \o r.d.ops
Count(c, r) ==
  LET w == [c EXCEPT !.complete = @ + N(r.ok), !.incomplete = @ + N(~r.ok), !.values = @ + Len(r.got),
              !.constants = @ + Cardinality({k \in 1..Len(r.got) : r.got[k][2] = <<0>>}), !.several = @ + N(Len(Ops(r)) > 2)]
      x == [w EXCEPT ![r.fmt] = @ + 1]
  IN [k \in DOMAIN x |-> x[k] + Cardinality({j \in 1..Len(Ops(r)) : Ops(r)[j].op = k})]

Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge == /\ i <= Len(T) /\ done' = FALSE /\ i' = i + 1
         /\ LET r == T[i]
            IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
               ELSE bad' = AddBad(bad, Check(r)) /\ cov' = Count(cov, r) /\ ev' = ev + 1 + Len(r.got)
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
