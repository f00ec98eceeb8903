------------------------------ MODULE MC_Reader ------------------------------
(* every sequence of operations on a small source, and the reading of it,   *)
(* one variable after the other in any order; `Out` hands the operations to *)
(* the harness                                                              *)
EXTENDS Reader, Json
CONSTANTS Kinds, Size, Depth, Part, Harms, Units
VARIABLES src, ops, harmed, phase, got, todo
vars == <<src, ops, harmed, phase, got, todo>>
Small == <<2, 1, 2, 2>>
(* grids of two by two, or a list of four units *)
N == LET c == IF Units THEN <<4, 1>> ELSE <<2, 2>>
     IN CASE Size = "small" -> Small [] Size = "forcing" -> c \o <<3, 4>> [] Size = "state" -> c \o <<3, 3>> [] Size = "domain" -> c \o <<1, 2>>

Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Dims == {d \in Perms(4) : d[4] = 4}
Styles == IF Size = "small" THEN {"names"}
          ELSE IF Size = "domain" THEN {"names", "single", "axisnames", "float", "bystander"}
          ELSE IF src.kind = "grid" THEN {"names", "single", "axisnames", "packed", "hour", "epoch", "bystander", "lazy", "unlimited", "integer"}
          ELSE {"spaces", "tabs", "prefix", "decimals", "integers", "scaled", "blank", "exponent", "unsigned"}
Label(a, front) == IF front THEN 0 ELSE N[a] + 1
Ax == (IF Units THEN {1} ELSE {1, 2}) \cup (IF Part = "domain" THEN {} ELSE {3})
Kept == LET L(a) == IF Len(src.files) > 0 /\ src.kind = "grid" THEN Len(F1(src).ax[a]) ELSE 1
            V == IF Part = "forcing" THEN 1..N[4] ELSE {}
        IN UNION {{[op |-> "permute", axis |-> a, idx |-> p] : p \in {q \in Perms(L(a)) : ~Ascending(q)}} : a \in Ax}
           \cup {[op |-> "turn", dims |-> d] : d \in Dims}
           \cup (IF Part = "domain" THEN {} ELSE UNION {{[op |-> "widen", axis |-> a, front |-> b, new |-> Label(a, b)] : b \in {TRUE, FALSE}} : a \in Ax})
           \cup (IF Part # "forcing" THEN {} ELSE UNION {{[op |-> "split", axis |-> a, at |-> k] : k \in 1..L(a)-1} : a \in Ax})
           \cup {[op |-> "const", var |-> v] : v \in V}
           \cup {[op |-> "exclude", var |-> v] : v \in {x \in src.const : Holds(src, x)}}
           \cup {[op |-> "style", how |-> h] : h \in Styles}
KeptCells == {[op |-> "order", idx |-> p] : p \in {q \in Perms(Len(src.files)) : ~Ascending(q)}}
             \cup {[op |-> "columns", idx |-> p] : p \in {q \in Perms(Len(src.cols)) : ~Ascending(q)}}
             \cup {[op |-> "foreign", cell |-> <<N[1] + 1, k>>] : k \in 1..2}
             \cup {[op |-> "longer"]}
             \cup {[op |-> "const", var |-> v] : v \in 1..N[4]}
             \cup {[op |-> "exclude", var |-> v] : v \in {x \in src.const : Holds(src, x)}}
             \cup {[op |-> "style", how |-> h] : h \in Styles}
Harmful == LET NF == Len(src.files)
               L(j, a) == Len(src.files[j].ax[a])
           IN IF src.kind = "grid"
              THEN UNION {UNION {{[op |-> "drop", axis |-> a, file |-> j, pos |-> p] : p \in 1..L(j, a)} : j \in 1..NF} : a \in IF Part = "domain" THEN {4} ELSE Ax \cup {4}}
                   \cup (IF Part = "domain" THEN {} ELSE UNION {{[op |-> "twice", axis |-> a, pos |-> p] : p \in 1..(IF NF = 1 THEN L(1, a) ELSE 0)} : a \in Ax})
                   \cup {[op |-> "unfile", file |-> j] : j \in 1..NF} \cup {[op |-> "damage", file |-> j] : j \in 1..NF}
              ELSE {[op |-> "unfile", file |-> j] : j \in 1..NF} \cup {[op |-> "damage", file |-> j] : j \in 1..NF}
                   \cup UNION {{[op |-> "shorter", file |-> j, by |-> b] : b \in 1..2} : j \in 1..NF}
                   \cup UNION {{[op |-> "ragged", file |-> j, row |-> b] : b \in 1..N[3]} : j \in 1..NF}
                   \cup {[op |-> "surplus", file |-> j] : j \in 1..NF}
Once(o) == o.op = "permute" \/ \A k \in 1..Len(ops) : ~(ops[k].op = o.op /\ (o.op = "style" => ops[k].how = o.how)
                                                      /\ (o.op \in {"widen"} => ops[k].axis = o.axis /\ ops[k].front = o.front)
                                                      /\ (o.op \in {"const", "exclude"} => ops[k].var = o.var)
                                                      /\ (o.op = "foreign" => ops[k].cell = o.cell))
(* the data needed are all that may be constant *)
Sane(s) == Cardinality(s.const) < N[4] /\ \E v \in 1..N[4] : Holds(s, v)

Init == /\ \E k \in Kinds : src = IF k = "grid" THEN Grid(N) ELSE Cells(N)
        /\ ops = << >> /\ harmed = FALSE /\ phase = "layout" /\ got = << >> /\ todo = {}
Do(o) == /\ Can(src, o) /\ Once(o) /\ src' = Apply(src, o) /\ Sane(src') /\ ops' = Append(ops, o)
         /\ UNCHANGED <<phase, got, todo>>
Keep == phase = "layout" /\ ~harmed /\ Len(ops) < Depth /\ \E o \in (IF src.kind = "grid" THEN Kept ELSE KeptCells) : Do(o) /\ UNCHANGED harmed
Harm == phase = "layout" /\ ~harmed /\ Len(ops) < Depth /\ Harms /\ \E o \in Harmful : Do(o) /\ harmed' = TRUE
Open == /\ phase = "layout" /\ phase' = (IF Unreadable(src) THEN "failed" ELSE "reading")
        /\ todo' = 1..N[4] /\ UNCHANGED <<src, ops, harmed, got>>
Of(v) == {l \in Wanted(src) : l[4] = v}
ReadVar(v) == /\ phase = "reading" /\ v \in todo /\ todo' = todo \ {v}
              /\ IF \E l \in Of(v) : Cardinality(Found(src, l)) # 1 THEN phase' = "failed" /\ UNCHANGED got
                 ELSE phase' = (IF todo' = {} THEN "done" ELSE "reading")
                      /\ got' = [l \in {x \in Needed(N) : x[4] = v} |-> Read(src, l)] @@ got
              /\ UNCHANGED <<src, ops, harmed>>
Next == Keep \/ Harm \/ Open \/ \E v \in todo : ReadVar(v)
Spec == Init /\ [][Next]_vars

(* ---- what has to hold ---- *)
Right == \A l \in DOMAIN got : got[l] = True(src, l)
AllOrNothing == phase = "done" => Complete(src) /\ DOMAIN got = Needed(N)
FailsOnlyIfIncomplete == phase = "failed" => ~Complete(src)
(* operations which only change the layout never lose anything *)
Same == ~harmed => Complete(src)
Replayed == src = Replay(IF src.kind = "grid" THEN Grid(N) ELSE Cells(N), ops)
(* for simulation: an operation of every kind, chosen at random *)
OpKinds == {"permute", "turn", "widen", "split", "const", "exclude", "style", "order", "columns", "foreign", "longer",
            "drop", "twice", "unfile", "damage", "shorter", "ragged", "surplus"}
Some(S, k) == LET C == {o \in S : o.op = k /\ Can(src, o) /\ Once(o)} IN IF C = {} THEN {} ELSE {RandomElement(C)}
SimKeep(k) == phase = "layout" /\ ~harmed /\ Len(ops) < Depth
              /\ \E o \in Some(IF src.kind = "grid" THEN Kept ELSE KeptCells, k) : Do(o) /\ UNCHANGED harmed
SimHarm(k) == phase = "layout" /\ ~harmed /\ Len(ops) < Depth /\ Harms /\ Len(ops) > 0
              /\ \E o \in Some(Harmful, k) : Do(o) /\ harmed' = TRUE
SimNext == (\E k \in OpKinds : SimKeep(k)) \/ (\E k \in OpKinds : SimHarm(k)) \/ (Len(ops) > 0 /\ Open)
SimSpec == Init /\ [][SimNext]_vars
Out == IF phase \in {"reading", "failed"}
       THEN PrintT("BEHAV:" \o ToJson([kind |-> src.kind, ops |-> ops, complete |-> Complete(src), harmed |-> harmed]))
       ELSE TRUE
=============================================================================
