----------------------------- MODULE Placement -----------------------------
(***************************************************************************)
(* Domain, mask, chunks, and where results go.  A grid is a record         *)
(* [shape, mask]: shape <<n>> or <<n1, n2>>; mask a sequence over the       *)
(* cells in row order.  Cells are indices <<a>> or <<a, b>> from 1.         *)
(* chunks: per dimension the chunk size, 0 if the dimension is not chunked. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fill == -1
Cells(shape) == IF Len(shape) = 1 THEN {<<a>> : a \in 1..shape[1]}
                ELSE {<<a, b>> : a \in 1..shape[1], b \in 1..shape[2]}
Flat(shape, c) == IF Len(shape) = 1 THEN c[1] ELSE (c[1] - 1) * shape[2] + c[2]
Active(g, c) == g.mask[Flat(g.shape, c)] > 0

(* the pieces of one dimension: intervals <<first, last>> *)
Pieces(n, size) ==
  IF size = 0 \/ size >= n THEN <<<<1, n>>>>
  ELSE LET k == (n + size - 1) \div size
       IN [j \in 1..k |-> <<(j - 1) * size + 1, IF j * size < n THEN j * size ELSE n>>]
(* the chunks: one interval per dimension *)
ChunkSet(shape, chunks) ==
  LET P(d) == {Pieces(shape[d], chunks[d])[j] : j \in 1..Len(Pieces(shape[d], chunks[d]))}
  IN IF Len(shape) = 1 THEN {<<x>> : x \in P(1)} ELSE {<<x, y>> : x \in P(1), y \in P(2)}
ChunkShape(k) == [d \in 1..Len(k) |-> k[d][2] - k[d][1] + 1]
InChunk(k, c) == \A d \in 1..Len(k) : c[d] >= k[d][1] /\ c[d] <= k[d][2]
(* a worker sees its chunk only: local index l *)
Global(k, l) == [d \in 1..Len(k) |-> k[d][1] + l[d] - 1]
(* the same the other way round: which piece of every dimension a cell, given by its flat index, is in *)
ChunkIndex(shape, chunks, x) ==
  LET Part(d, j) == IF chunks[d] = 0 THEN 0 ELSE (j - 1) \div chunks[d]
  IN IF Len(shape) = 1 THEN <<Part(1, x)>> ELSE <<Part(1, ((x - 1) \div shape[2]) + 1), Part(2, ((x - 1) % shape[2]) + 1)>>
CellsOf(shape, k) == {c \in Cells(shape) : InChunk(k, c)}
=============================================================================
