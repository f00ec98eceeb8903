------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* What the trace specifications share: the recorded behaviours, read from *)
(* the file IOEnv.TRACE, and the report of the verdict into IOEnv.OUT.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
MaxBad == 400

(* append the failed clauses cs (a sequence of <<id, clause, detail...>>) *)
AddBad(bad, cs) == IF Len(bad) >= MaxBad THEN bad ELSE bad \o cs

(* <<c>> if the clause fails, << >> if it holds *)
Fails(ok, c) == IF ok THEN << >> ELSE <<c>>

Write(n, events, bad, cov) ==
  JsonSerialize(IOEnv.OUT, [n |-> n, events |-> events, bad |-> bad, cov |-> cov])

RECURSIVE ConcatUpTo(_, _)
ConcatUpTo(f, n) == IF n = 0 THEN << >> ELSE ConcatUpTo(f, n - 1) \o f[n]

(* concatenation of F(1) .. F(n), each a sequence *)
Concat(F(_), n) == ConcatUpTo([j \in 1..n |-> F(j)], n)

(* first k elements *)
Take(s, k) == SubSeq(s, 1, IF Len(s) < k THEN Len(s) ELSE k)
Has(r, f) == f \in DOMAIN r
Bump(cov, k, n) == [cov EXCEPT ![k] = @ + n]
=============================================================================
