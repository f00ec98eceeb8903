-------------------------------- MODULE Gauge --------------------------------
(***************************************************************************)
(* Disaggregation of daily amounts (precipitation) and daily means (wind,  *)
(* cloud) as a gauge which is read every `ts' minutes.                     *)
(*                                                                         *)
(* The water of local day d is poured minute by minute; the gauge runs on  *)
(* output time, which is `o' minutes behind local time and wraps around    *)
(* inside the record: output minute m shows local minute (m + o) mod T.    *)
(* The first part is the abstract machine (any distribution of a day's     *)
(* water over its minutes), which is model checked; the second part gives  *)
(* the distributions the configuration can ask for, which the trace        *)
(* specification compares with what the code wrote.                        *)
(***************************************************************************)
EXTENDS Fx, FiniteSets, TLC

CONSTANT DayLen            \* minutes in a day (1440; small for checking)

RecLen(nd) == nd * DayLen
Local(m, o, nd)    == (m + o) % RecLen(nd)            \* local minute of output minute m
LocalDay(m, o, nd) == Local(m, o, nd) \div DayLen + 1  \* 1..nd

(* the one or two stretches of local time which the step starting at output
   minute m covers: <<day, first minute, minute after the last>> *)
Pieces(m, ts, o, nd) ==
  LET a == Local(m, o, nd)  d == a \div DayLen + 1  f == a % DayLen
  IN IF f + ts <= DayLen THEN << <<d, f, f + ts>> >>
     ELSE << <<d, f, DayLen>>, <<(d % nd) + 1, 0, f + ts - DayLen>> >>

(***************************************************************************)
(* the abstract machine                                                    *)
(***************************************************************************)
(* last output minute at which day d is poured *)
LastPour(d, o, nd) ==
  CHOOSE m \in 0..(RecLen(nd) - 1) :
     /\ LocalDay(m, o, nd) = d
     /\ \A k \in (m + 1)..(RecLen(nd) - 1) : LocalDay(k, o, nd) # d

GaugeInit(P) == [pos |-> 0, left |-> P, reading |-> 0, out |-> << >>,
                 got |-> [d \in DOMAIN P |-> 0]]
CanPour(g, q, o, nd) ==
  LET d == LocalDay(g.pos, o, nd)
  IN /\ g.pos < RecLen(nd) /\ q \in 0..g.left[d]
     /\ g.pos = LastPour(d, o, nd) => q = g.left[d]
Pour(g, q, ts, o, nd) ==
  LET d == LocalDay(g.pos, o, nd)
      read == (g.pos + 1) % ts = 0
  IN [pos |-> g.pos + 1,
      left |-> [g.left EXCEPT ![d] = @ - q],
      reading |-> IF read THEN 0 ELSE g.reading + q,
      out |-> IF read THEN Append(g.out, g.reading + q) ELSE g.out,
      got |-> [g.got EXCEPT ![d] = @ + q]]

(* the readings which show nothing but day d, if the offset is a whole number
   of steps; and those which show a part of it *)
StepDays(k, ts, o, nd) ==      \* of reading number k (1, 2, ..)
  LET p == Pieces((k - 1) * ts, ts, o, nd) IN {p[j][1] : j \in 1..Len(p)}

(***************************************************************************)
(* the distributions                                                       *)
(***************************************************************************)
TypeOf(type, tmin) ==          \* type in lower case
  IF type = "triangle" \/ (type = "mix" /\ tmin >= 0) THEN "triangle" ELSE "uniform"

(* share (scale One) of an isosceles triangle which lies before time x.
   x, pk and dur in tenths of a minute *)
TriCdf(x, pk, dur) ==
  LET u == 2 * x - 2 * pk + dur          \* twice the time since the start
  IN IF u <= 0 THEN 0
     ELSE IF u >= 2 * dur THEN One
     ELSE IF u <= dur THEN Sq(Div(u, dur)) \div 2
     ELSE One - Sq(Div(2 * dur - u, dur)) \div 2
(* the window lies inside the day *)
Inside(pk, dur) == 2 * pk - dur >= 0 /\ 2 * pk + dur <= 20 * (DayLen - 1)

(* amount in [a, b) minutes of a day with total P *)
UniformPart(P, a, b) == MulDiv(P, b - a, DayLen)
TrianglePart(P, a, b, pk, dur) ==
  Mul(P, TriCdf(10 * b, pk, dur) - TriCdf(10 * a, pk, dur))

(* the window is sampled once a minute: every minute may be off by the change
   of the intensity over two minutes *)
TriangleTol(P, ts, dur) ==
  LET mins == Min2(10 * ts, dur + 20)            \* tenths
  IN 20 + Mul(P, MulDiv(Div(80 * mins, dur), 10, dur))
=============================================================================
