------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* The trailing windows over state and forcing: sums over the last W days  *)
(* of a series, kept as the oldest day leaves and the new one enters.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Sum(_, _, _)
Sum(s, a, b) == IF b < a THEN 0 ELSE s[b] + Sum(s, a, b - 1)
(* the sum over days d-W+1 .. d of s *)
Window(s, d, W) == Sum(s, d - W + 1, d)
(* the same, one day on *)
Slide(sum, s, d, W) == sum - s[d - W + 1] + s[d + 1]
=============================================================================
