------------------------------- MODULE MC_Deps -------------------------------
(* A record of days 1..N (days -WP+1..0 before it) of several cells is      *)
(* simulated in pieces.  Every value carries where it comes from: a set of  *)
(* <<input, day, cell>>; "hard" sources and sources through the iteration   *)
(* ("soft").  Cells are worked on in any order.                             *)
EXTENDS Deps, TLC
CONSTANTS N, Cells, Mix
VARIABLES starts, piece, cell, day, todo, wT, wP, hard, soft, phase
vars == <<starts, piece, cell, day, todo, wT, wP, hard, soft, phase>>
Src(i, D, c) == {<<i, x, c>> : x \in D}
Last(p) == IF \E s \in starts : s > p THEN (CHOOSE s \in starts : s > p /\ \A t \in starts : t > p => s <= t) - 1 ELSE N
Null == [v \in DailyVars \cup SubVars |-> {}]
Init == /\ starts \in {S \in SUBSET (1..N) : 1 \in S}
        /\ piece = 1 /\ todo = Cells /\ cell = 0 /\ day = 0 /\ wT = {} /\ wP = {} /\ phase = "pick"
        /\ hard = [c \in Cells |-> [d \in 1..N |-> [s \in {FALSE, TRUE} |-> Null]]]
        /\ soft = [c \in Cells |-> [d \in 1..N |-> {}]]
(* take a cell: its windows are filled from the state *)
Pick == /\ phase = "pick" /\ todo # {}
        /\ \E c \in todo : /\ cell' = c /\ todo' = todo \ {c}
                           /\ wT' = Src("T", (piece - WT + 1)..(piece - 1), c)
                           /\ wP' = Src("P", (piece - WP + 1)..(piece - 1), c)
        /\ day' = piece /\ phase' = "daily" /\ UNCHANGED <<starts, piece, hard, soft>>
(* one day on: the new day enters the windows, the oldest leaves *)
Daily ==
  /\ phase = "daily"
  /\ LET t == {<<"T", day, cell>>}  p == {<<"P", day, cell>>}  w == {<<"W", day, cell>>}
         nT == {x \in wT : x[2] # day - WT} \cup t
         nP == {x \in wP : x[2] # day - WP} \cup p
         cloud == nT \cup p
         est == cloud \cup nP
         S == {<<"S", 0, cell>>}
     IN /\ wT' = nT /\ wP' = nP
        /\ hard' = [hard EXCEPT ![cell][day][FALSE] =
             [v \in DailyVars \cup SubVars |->
               CASE v \in {"t_min", "t_max", "t_day"} -> t [] v = "prec" -> p [] v = "wind" -> w [] v = "daylength" -> S
                 [] v = "tskc" -> cloud \cup S [] v \in {"vapor_pressure", "shortwave", "pet"} -> est \cup S [] OTHER -> {}]]
  /\ IF day = Last(piece) THEN day' = piece /\ phase' = "iterate" ELSE day' = day + 1 /\ phase' = phase
  /\ UNCHANGED <<starts, piece, cell, todo, soft>>
(* the iteration goes on until all days together have converged *)
Iterate ==
  /\ phase = "iterate" /\ phase' = "sub"
  /\ soft' = [soft EXCEPT ![cell] = [d \in 1..N |-> IF d >= piece /\ d <= Last(piece)
                 THEN UNION {hard[cell][e][FALSE]["vapor_pressure"] : e \in piece..Last(piece)} ELSE soft[cell][d]]]
  /\ UNCHANGED <<starts, piece, cell, day, todo, wT, wP, hard>>
(* the curve through extremes and dew points of the day and its neighbours; before the first day the state *)
Sub ==
  /\ phase = "sub"
  /\ LET near == {e \in {day - 1, day, day + 1} : e <= Last(piece)}
         inner == {e \in near : e >= piece}
         S == {<<"S", 0, cell>>}
         curve == {<<"T", e, cell>> : e \in near} \cup S
         vap == curve \cup UNION {hard[cell][e][FALSE]["vapor_pressure"] : e \in inner} \cup hard[cell][day][FALSE]["tskc"]
         h == hard[cell][day][FALSE]
     IN hard' = [hard EXCEPT ![cell][day][TRUE] =
             [v \in DailyVars \cup SubVars |->
               CASE v \in {"temp", "air_pressure"} -> curve [] v = "prec" -> h["prec"] \cup (IF Mix THEN h["t_min"] ELSE {})
                 [] v = "wind" -> h["wind"] [] v = "tskc" -> h["tskc"] [] v = "shortwave" -> h["shortwave"]
                 [] v \in CurveV -> vap [] OTHER -> {}]]
  /\ IF day < Last(piece) THEN day' = day + 1 /\ UNCHANGED <<phase, piece, todo>>
     ELSE /\ UNCHANGED day
          /\ IF todo # {} THEN phase' = "pick" /\ UNCHANGED <<piece, todo>>
             ELSE IF Last(piece) < N THEN phase' = "pick" /\ piece' = Last(piece) + 1 /\ todo' = Cells
             ELSE phase' = "done" /\ UNCHANGED <<piece, todo>>
  /\ UNCHANGED <<starts, cell, wT, wP, soft>>
Next == Pick \/ Daily \/ Iterate \/ Sub \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PieceOf(d) == CHOOSE s \in starts : s <= d /\ d <= Last(s)
(* every source is one the relation admits *)
Admitted(c, d, s, v) == \A x \in hard[c][d][s][v] : x[3] = c /\ Sees(v, s, x[1], Mix, d, x[2], x[2])
(* and the relation admits nothing else, but at the limits of a piece *)
Exact(c, d, s, v) ==
  phase = "done" => \A i \in {"T", "P", "W"} : LET w == Reach(v, s, i, Mix) IN
     w # None => \A x \in (d + w[1])..(d + w[2]) :
        \/ <<i, x, c>> \in hard[c][d][s][v]
        \/ SeesEnd(v, s, d, Last(PieceOf(d))) \/ SeesBegin(v, s, d, PieceOf(d))
Vs(s) == IF s THEN SubVars ELSE DailyVars
Sound == \A c \in Cells : \A d \in 1..N : \A s \in {FALSE, TRUE} : \A v \in Vs(s) : Admitted(c, d, s, v)
Complete == \A c \in Cells : \A d \in 1..N : \A s \in {FALSE, TRUE} : \A v \in Vs(s) : Exact(c, d, s, v)
(* pieces make no difference: daily values come from the same days as in one run *)
PieceFree == phase = "done" => \A c \in Cells : \A d \in 1..N :
   /\ hard[c][d][FALSE]["vapor_pressure"] = Src("T", (d - WT + 1)..d, c) \cup Src("P", (d - WP + 1)..d, c) \cup {<<"S", 0, c>>}
   /\ hard[c][d][FALSE]["tskc"] = Src("T", (d - WT + 1)..d, c) \cup {<<"P", d, c>>} \cup {<<"S", 0, c>>}
OwnCell == \A c \in Cells : \A d \in 1..N : (\A x \in soft[c][d] : x[3] = c)
             /\ \A s \in {FALSE, TRUE} : \A v \in Vs(s) : \A x \in hard[c][d][s][v] : x[3] = c
Past == \A c \in Cells : \A d \in 1..N :
   /\ \A v \in DailyVars : \A x \in hard[c][d][FALSE][v] : x[2] <= d \/ x[1] = "S"
   /\ \A v \in SubVars : \A x \in hard[c][d][TRUE][v] : x[1] = "S" \/ x[2] <= d \/ (v \in CurveT /\ x[2] = d + 1)
ReadsOnly == \A c \in Cells : \A d \in 1..N : \A s \in {FALSE, TRUE} : \A v \in Vs(s) :
   \A x \in hard[c][d][s][v] : x[1] = "S" \/ Reads(PieceOf(d), Last(PieceOf(d)), x[2])
Ends == <>(phase = "done")
=============================================================================
