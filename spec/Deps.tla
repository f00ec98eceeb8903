-------------------------------- MODULE Deps --------------------------------
(***************************************************************************)
(* What depends on what.  Days lie on an axis; a run covers the days        *)
(* first..last, its state the WP days before.  Inputs of a cell:            *)
(*   "T" the daily extremes, "P" precipitation, "W" wind, "S" what does not *)
(*   change with time (elevation, place, monthly parameters, mask)          *)
(* Reach gives the days, relative to the day of the output, an output reads *)
(* of an input of its own cell; <<1, 0>> is none.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS WP, WT        \* 90 and 30 in MetSim

None == <<1, 0>>
DailyVars == {"t_min", "t_max", "t_day", "prec", "wind", "daylength", "tskc", "vapor_pressure", "shortwave", "pet"}
SubVars == {"temp", "air_pressure", "prec", "wind", "tskc", "shortwave", "vapor_pressure", "rel_humid", "spec_humid", "longwave"}
(* fed by the curve through the extremes; by the curve through the daily vapor pressures *)
CurveT == {"temp", "air_pressure", "vapor_pressure", "rel_humid", "spec_humid", "longwave"}
CurveV == {"vapor_pressure", "rel_humid", "spec_humid", "longwave"}
(* estimated jointly by an iteration which stops for all days at once *)
Iterated(sub) == IF sub THEN {"shortwave", "vapor_pressure", "rel_humid", "spec_humid", "longwave"}
                 ELSE {"shortwave", "vapor_pressure", "pet"}

Estimate(inp) == CASE inp = "T" -> <<1 - WT, 0>> [] inp = "P" -> <<1 - WP, 0>> [] OTHER -> None
Reach(v, sub, inp, mix) ==
  IF inp = "S" THEN <<0, 0>>
  ELSE IF v \in {"t_min", "t_max", "t_day"} THEN (IF inp = "T" THEN <<0, 0>> ELSE None)
  ELSE IF v = "daylength" THEN None
  ELSE IF v = "wind" THEN (IF inp = "W" THEN <<0, 0>> ELSE None)
  ELSE IF v = "prec" THEN (IF inp = "P" \/ (inp = "T" /\ sub /\ mix) THEN <<0, 0>> ELSE None)
  ELSE IF v = "tskc" THEN (CASE inp = "T" -> <<1 - WT, 0>> [] inp = "P" -> <<0, 0>> [] OTHER -> None)
  ELSE IF v \in {"temp", "air_pressure"} THEN (IF inp = "T" THEN <<-1, 1>> ELSE None)
  ELSE IF sub /\ v \in CurveV THEN (IF Estimate(inp) = None THEN None ELSE <<Estimate(inp)[1] - 1, 1>>)
  ELSE Estimate(inp)

(* days lo..hi of an input changed: does the output of day d see it? *)
Sees(v, sub, inp, mix, d, lo, hi) ==
  LET w == Reach(v, sub, inp, mix) IN w # None /\ (inp = "S" \/ (lo <= d + w[2] /\ hi >= d + w[1]))
(* days a run reads at all *)
Reads(first, last, d) == d >= first - WP + 1 /\ d <= last
(* outputs which see the limits of the run *)
SeesBegin(v, sub, d, first) == sub /\ v \in CurveT /\ d = first   \* the day before gets the sunrise of the first day
SeesEnd(v, sub, d, last) == sub /\ v \in CurveT /\ d = last
=============================================================================
