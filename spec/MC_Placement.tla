---------------------------- MODULE MC_Placement ----------------------------
(* Workers compute their chunks cell by cell on local indices and write     *)
(* them back as a block, in any order and overlap.                         *)
EXTENDS Placement, TLC
CONSTANTS Shapes, ChunkSizes, Masks(_)
VARIABLES g, chunks, local, at, disk, owner
vars == <<g, chunks, local, at, disk, owner>>
(* local: chunk -> [cell -> result]; at: chunk -> number of cells visited (-1 waiting, -2 written) *)
Result(c) == 10 * c[1] + (IF Len(c) = 2 THEN c[2] ELSE 0)
Init == /\ \E sh \in Shapes : \E m \in Masks(sh) : g = [shape |-> sh, mask |-> m]
        /\ \E cs \in [1..Len(g.shape) -> ChunkSizes] : chunks = ChunkSet(g.shape, cs)
        /\ local = [k \in chunks |-> [l \in Cells(ChunkShape(k)) |-> Fill]]
        /\ at = [k \in chunks |-> 0]
        /\ disk = [c \in Cells(g.shape) |-> Fill]
        /\ owner = [c \in Cells(g.shape) |-> {}]
Size(k) == Cardinality(Cells(ChunkShape(k)))
Visit(k) == /\ at[k] >= 0 /\ at[k] < Size(k)
            /\ LET l == CHOOSE x \in Cells(ChunkShape(k)) : Flat(ChunkShape(k), x) = at[k] + 1
               IN local' = IF Active(g, Global(k, l)) THEN [local EXCEPT ![k][l] = Result(Global(k, l))] ELSE local
            /\ at' = [at EXCEPT ![k] = @ + 1] /\ UNCHANGED <<g, chunks, disk, owner>>
Write(k) == /\ at[k] = Size(k) /\ at' = [at EXCEPT ![k] = -2]
            /\ disk' = [c \in DOMAIN disk |-> IF InChunk(k, c) THEN local[k][[d \in 1..Len(k) |-> c[d] - k[d][1] + 1]] ELSE disk[c]]
            /\ owner' = [c \in DOMAIN owner |-> IF InChunk(k, c) THEN owner[c] \cup {k} ELSE owner[c]]
            /\ UNCHANGED <<g, chunks, local>>
Next == \E k \in chunks : Visit(k) \/ Write(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnePlace == \A c \in Cells(g.shape) : disk[c] \in {Fill, Result(c)}
Covered  == \A c \in Cells(g.shape) : \E k \in chunks : InChunk(k, c)
Disjoint == \A c \in Cells(g.shape) : Cardinality(owner[c]) <= 1
Inactive == \A c \in Cells(g.shape) : ~Active(g, c) => disk[c] = Fill
Done == <>(\A c \in Cells(g.shape) : Active(g, c) => disk[c] = Result(c))
S1 == {<<1>>, <<3>>, <<2, 2>>, <<1, 3>>}
S2 == {<<1>>, <<3>>, <<5>>, <<2, 2>>, <<1, 3>>, <<3, 2>>}
Size2(sh) == IF Len(sh) = 1 THEN sh[1] ELSE sh[1] * sh[2]
AllMasks(sh) == [1..Size2(sh) -> {0, 1}]
ASSUME \A sh \in S2 : \A cs \in [1..Len(sh) -> 0..4] : \A c, d \in Cells(sh) :
  (ChunkIndex(sh, cs, Flat(sh, c)) = ChunkIndex(sh, cs, Flat(sh, d))) <=> (\E k \in ChunkSet(sh, cs) : InChunk(k, c) /\ InChunk(k, d))
SomeMasks(sh) == {m \in [1..Size2(sh) -> {-1, 0, 1, 2}] : m[1] # 2}
=============================================================================
