---------------------------- MODULE Passthrough ----------------------------
(***************************************************************************)
(* Passthrough: supplied variables are kept, the missing ones are          *)
(* estimated in any order in which their own needs are there.              *)
(* A machine is a record [src]: variable -> where it comes from: <<>> (not  *)
(* there yet) or the set of supplied variables it depends on.              *)
(***************************************************************************)
EXTENDS FiniteSets, Integers, TLC

Estimable == {"t_day", "tfmax", "tskc", "pet", "tdew", "vapor_pressure"}
Always == {"t_min", "t_max", "prec", "dtr", "smoothed_dtr", "seasonal_prec", "shortwave"}
Needs(v) ==
  CASE v = "t_day"  -> {"t_min", "t_max"}
    [] v = "tfmax"  -> {"dtr", "smoothed_dtr", "prec"}
    [] v = "tskc"   -> {"tfmax"}
    [] v = "pet"    -> {"shortwave", "t_day"}
    [] v = "tdew"   -> {"pet", "t_min", "seasonal_prec", "dtr"}
    [] v = "vapor_pressure" -> {"tdew"}

Begin(supplied) == [v \in Estimable \cup Always |-> IF v \in supplied \cup Always THEN {v} ELSE {}]
Ready(src, v) == v \in Estimable /\ src[v] = {} /\ \A n \in Needs(v) : src[n] # {}
Estimate(src, v) == [src EXCEPT ![v] = UNION {src[n] : n \in Needs(v)}]

(* what a variable finally depends on *)
RECURSIVE Origin(_, _)
Origin(v, supplied) == IF v \in supplied \cup Always THEN {v}
                       ELSE UNION {Origin(n, supplied) : n \in Needs(v)}
Estimated(supplied) == Estimable \ supplied
=============================================================================
