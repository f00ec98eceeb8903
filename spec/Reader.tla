------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Input data, the many layouts the same data may come in, and what is read *)
(* from them.                                                               *)
(*                                                                         *)
(* Data are values for labels <<lat, lon, day, variable>>.  The labels a    *)
(* run needs are 1..n[a] on every axis a; what else a source holds is junk. *)
(* A source s is a record                                                   *)
(*  n:     how many labels are needed on each of the four axes              *)
(*  kind:  "grid": files with labels on every axis                          *)
(*         "cells": a file per cell with a row per day, counted from the    *)
(*         first day, and a column per variable, in the order of cols       *)
(*  files: grid: [dims: order of the axes in the file, ax: labels on every  *)
(*         axis, at: position -> value, whole: can it be read]              *)
(*         cells: [cell, rows: sequence of rows of values, whole]           *)
(*  cols:  variables of the columns (kind "cells")                          *)
(*  const: variables which are replaced by a constant                       *)
(* An operation changes the layout; most of them keep what is meant.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Axes == 1..4
Lat == 1  Lon == 2  Day == 3  Var == 4
Junk == << >>
Const == <<0>>
Needed(n) == {<<a, b, c, d>> : a \in 1..n[1], b \in 1..n[2], c \in 1..n[3], d \in 1..n[4]}

(* ---- grids ---- *)
Positions(f) == LET L(k) == 1..Len(f.ax[f.dims[k]])
                IN {<<a, b, c, d>> : a \in L(1), b \in L(2), c \in L(3), d \in L(4)}
Rank(f, a) == CHOOSE k \in 1..4 : f.dims[k] = a
LabelAt(f, p) == [a \in Axes |-> f.ax[a][p[Rank(f, a)]]]
Grid(n) == [n |-> n, kind |-> "grid", cols |-> << >>, const |-> {},
            files |-> << [dims |-> <<3, 1, 2, 4>>, ax |-> [a \in Axes |-> [k \in 1..n[a] |-> k]], whole |-> TRUE,
                          at |-> [p \in {<<c, a, b, d>> : a \in 1..n[1], b \in 1..n[2], c \in 1..n[3], d \in 1..n[4]} |-> <<p[2], p[3], p[1], p[4]>>]] >>]
(* the positions idx of axis a, in that order; 0 is a position which is not there *)
Select(f, a, idx, new) ==
  LET k == Rank(f, a)
      g == [f EXCEPT !.ax = [@ EXCEPT ![a] = [j \in 1..Len(idx) |-> IF idx[j] = 0 THEN new ELSE f.ax[a][idx[j]]]]]
  IN [g EXCEPT !.at = [p \in Positions(g) |-> IF idx[p[k]] = 0 THEN Junk ELSE f.at[[p EXCEPT ![k] = idx[@]]]]]
Turn(f, dims) ==
  LET g == [f EXCEPT !.dims = dims]
  IN [g EXCEPT !.at = [p \in Positions(g) |-> f.at[[k \in 1..4 |-> p[Rank(g, f.dims[k])]]]]]

(* ---- a file per cell ---- *)
Cells(n) == [n |-> n, kind |-> "cells", cols |-> [k \in 1..n[4] |-> k], const |-> {},
             files |-> [k \in 1..(n[1] * n[2]) |->
                         LET la == ((k - 1) \div n[2]) + 1  lo == ((k - 1) % n[2]) + 1
                         IN [cell |-> <<la, lo>>, whole |-> TRUE, rows |-> [d \in 1..n[3] |-> [v \in 1..n[4] |-> <<la, lo, d, v>>]]]]]

(* ---- operations ---- *)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Count(n) == [k \in 1..n |-> k]
Ascending(s) == \A k \in 1..Len(s)-1 : s[k] < s[k+1]
One(s) == s.kind = "grid" /\ Len(s.files) = 1
F1(s) == s.files[1]
(* can o be done to s *)
Can(s, o) ==
  CASE o.op = "permute" -> One(s) /\ Len(o.idx) = Len(F1(s).ax[o.axis]) /\ Cardinality({o.idx[k] : k \in 1..Len(o.idx)}) = Len(o.idx)
    [] o.op = "turn" -> One(s)
    [] o.op = "widen" -> One(s) /\ o.axis # Var /\ (o.new \notin {F1(s).ax[o.axis][k] : k \in 1..Len(F1(s).ax[o.axis])})
    [] o.op = "split" -> One(s) /\ Ascending(F1(s).ax[o.axis]) /\ o.at \in 1..Len(F1(s).ax[o.axis])-1
    [] o.op = "drop" -> /\ s.kind = "grid" /\ o.file <= Len(s.files) /\ o.pos <= Len(s.files[o.file].ax[o.axis]) /\ Len(s.files[o.file].ax[o.axis]) > 1
                        (* files which continue each other, and the variables the run is told to find *)
                        /\ (Len(s.files) > 1 => s.files[1].ax[o.axis] # s.files[2].ax[o.axis])
                        /\ (o.axis = Var => s.files[o.file].ax[Var][o.pos] \notin s.const)
    [] o.op = "twice" -> One(s) /\ o.pos <= Len(F1(s).ax[o.axis]) /\ F1(s).ax[o.axis][o.pos] \in 1..s.n[o.axis]
    [] o.op = "unfile" -> o.file <= Len(s.files) /\ Len(s.files) > 1
    [] o.op = "damage" -> o.file <= Len(s.files)
    [] o.op = "const" -> o.var \notin s.const
    [] o.op = "exclude" -> o.var \in s.const /\ (s.kind = "cells" \/ One(s))
    [] o.op = "order" -> s.kind = "cells" /\ Len(o.idx) = Len(s.files) /\ Cardinality({o.idx[k] : k \in 1..Len(o.idx)}) = Len(o.idx)
    [] o.op = "columns" -> s.kind = "cells" /\ Len(o.idx) = Len(s.cols) /\ Cardinality({o.idx[k] : k \in 1..Len(o.idx)}) = Len(o.idx)
    [] o.op = "foreign" -> s.kind = "cells"
    [] o.op = "longer" -> s.kind = "cells"
    [] o.op = "shorter" -> s.kind = "cells" /\ o.file <= Len(s.files) /\ o.by <= Len(s.files[o.file].rows)
    [] o.op = "ragged" -> s.kind = "cells" /\ o.file <= Len(s.files) /\ o.row <= Len(s.files[o.file].rows)
    [] o.op = "surplus" -> s.kind = "cells" /\ o.file <= Len(s.files)
    [] OTHER -> TRUE
Apply(s, o) ==
  CASE o.op = "permute" -> [s EXCEPT !.files = <<Select(F1(s), o.axis, o.idx, 0)>>]
    [] o.op = "turn" -> [s EXCEPT !.files = <<Turn(F1(s), o.dims)>>]
    [] o.op = "widen" -> LET m == Len(F1(s).ax[o.axis])
                             idx == IF o.front THEN <<0>> \o Count(m) ELSE Append(Count(m), 0)
                         IN [s EXCEPT !.files = <<Select(F1(s), o.axis, idx, o.new)>>]
    [] o.op = "split" -> LET m == Len(F1(s).ax[o.axis])
                         IN [s EXCEPT !.files = <<Select(F1(s), o.axis, Count(o.at), 0), Select(F1(s), o.axis, [k \in 1..(m - o.at) |-> o.at + k], 0)>>]
    [] o.op = "drop" -> [s EXCEPT !.files = [@ EXCEPT ![o.file] = Select(@, o.axis, Without(Count(Len(@.ax[o.axis])), o.pos), 0)]]
    [] o.op = "twice" -> [s EXCEPT !.files = <<Select(F1(s), o.axis, Append(Count(Len(F1(s).ax[o.axis])), o.pos), 0)>>]
    [] o.op = "unfile" -> [s EXCEPT !.files = Without(@, o.file)]
    [] o.op = "damage" -> [s EXCEPT !.files = [@ EXCEPT ![o.file] = [@ EXCEPT !.whole = FALSE]]]
    [] o.op = "const" -> [s EXCEPT !.const = @ \cup {o.var}]
    [] o.op = "exclude" -> IF s.kind = "grid"
                           THEN LET k == CHOOSE j \in 1..Len(F1(s).ax[Var]) : F1(s).ax[Var][j] = o.var
                                IN [s EXCEPT !.files = <<Select(F1(s), Var, Without(Count(Len(F1(s).ax[Var])), k), 0)>>]
                           ELSE LET k == CHOOSE j \in 1..Len(s.cols) : s.cols[j] = o.var
                                IN [s EXCEPT !.cols = Without(@, k),
                                             !.files = [j \in 1..Len(@) |-> [@[j] EXCEPT !.rows = [d \in 1..Len(@) |-> Without(@[d], k)]]]]
    [] o.op = "order" -> [s EXCEPT !.files = [k \in 1..Len(@) |-> @[o.idx[k]]]]
    [] o.op = "columns" -> [s EXCEPT !.cols = [k \in 1..Len(@) |-> @[o.idx[k]]],
                                     !.files = [j \in 1..Len(@) |-> [@[j] EXCEPT !.rows = [d \in 1..Len(@) |-> [k \in 1..Len(o.idx) |-> @[d][o.idx[k]]]]]]]
    [] o.op = "foreign" -> [s EXCEPT !.files = Append(@, [cell |-> o.cell, whole |-> TRUE, rows |-> [d \in 1..s.n[3] |-> [k \in 1..Len(s.cols) |-> Junk]]])]
    [] o.op = "longer" -> [s EXCEPT !.files = [j \in 1..Len(@) |-> [@[j] EXCEPT !.rows = Append(@, [k \in 1..Len(s.cols) |-> Junk])]]]
    [] o.op = "shorter" -> [s EXCEPT !.files = [@ EXCEPT ![o.file] = [@ EXCEPT !.rows = SubSeq(@, 1, Len(@) - o.by)]]]
    [] o.op = "ragged" -> [s EXCEPT !.files = [@ EXCEPT ![o.file] = [@ EXCEPT !.rows = [@ EXCEPT ![o.row] = SubSeq(@, 1, Len(@) - 1)]]]]
    [] o.op = "surplus" -> [s EXCEPT !.files = [@ EXCEPT ![o.file] = [@ EXCEPT !.rows = [d \in 1..Len(@) |-> <<Junk>> \o @[d]]]]]
    [] OTHER -> s          \* names, types, units of time, separators: nothing that is meant
RECURSIVE Replay(_, _)
Replay(s, ops) == IF ops = << >> THEN s ELSE Replay(IF Can(s, Head(ops)) THEN Apply(s, Head(ops)) ELSE s, Tail(ops))

(* ---- what is read: every value by its label, or nothing at all ---- *)
Holds(s, v) == IF s.kind = "cells" THEN v \in {s.cols[k] : k \in 1..Len(s.cols)}
               ELSE \E j \in 1..Len(s.files) : v \in {s.files[j].ax[Var][k] : k \in 1..Len(s.files[j].ax[Var])}
(* values found for a label, as << file, position, value >> *)
Found(s, l) ==
  IF s.kind = "grid"
  THEN UNION {{<<j, p, s.files[j].at[p]>> : p \in {q \in Positions(s.files[j]) : LabelAt(s.files[j], q) = l}} : j \in {k \in 1..Len(s.files) : s.files[k].whole}}
  ELSE {<<j, l, LET k == CHOOSE x \in 1..Len(s.cols) : s.cols[x] = l[4] IN s.files[j].rows[l[3]][k]>> :
           j \in {k \in 1..Len(s.files) : /\ s.files[k].whole /\ s.files[k].cell = <<l[1], l[2]>> /\ l[3] <= Len(s.files[k].rows)
                                          /\ Len(s.files[k].rows[l[3]]) = Len(s.cols) /\ Holds(s, l[4])}}
(* a file that is consulted but can not be read *)
Unreadable(s) == \E j \in 1..Len(s.files) : ~s.files[j].whole /\ (s.kind = "grid" \/ s.files[j].cell \in (1..s.n[1]) \X (1..s.n[2]))
(* a variable which a constant replaces need not be there, but what is there has to be complete *)
Wanted(s) == {l \in Needed(s.n) : l[4] \notin s.const \/ Holds(s, l[4])}
Complete(s) == ~Unreadable(s) /\ \A l \in Wanted(s) : Cardinality(Found(s, l)) = 1
Read(s, l) == IF l[4] \in s.const THEN Const ELSE (CHOOSE x \in Found(s, l) : TRUE)[3]
(* what it ought to be *)
True(s, l) == IF l[4] \in s.const THEN Const ELSE l
(* cells some of whose data are missing *)
Affected(s) == IF Unreadable(s) THEN (1..s.n[1]) \X (1..s.n[2])
               ELSE {<<l[1], l[2]>> : l \in {x \in Wanted(s) : Cardinality(Found(s, x)) # 1}}
=============================================================================
