--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* The life of a run and of the files it writes.                           *)
(*                                                                         *)
(* A run is set up, creates its files one by one (whatever was there is     *)
(* gone), and hands its chunks to workers.  A worker takes the library lock *)
(* to load its inputs, computes without it, and takes it again to write its *)
(* cells into file after file, variable after variable.  Any step of a      *)
(* worker may fail; the run then ends in an error, once no worker is busy.  *)
(* The process may be killed at any moment; what was being written is torn. *)
(* A run may be repeated.                                                   *)
(*                                                                         *)
(* disk[f][v][c]: what file f holds for variable v in the cells of chunk c: *)
(* "absent", "torn", "old" (of another run), "fill", "good"                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NF, NV, NC, W      \* files, variables, chunks, workers
Files == 1..NF
Vars == 1..NV
Chunks == 1..NC
None == 0

VARIABLES phase,    \* ready, create, work, failing, done, failed, killed
          made,     \* files created so far
          pc,       \* chunk -> <<step, file, variable>>
          lock,     \* the chunk which holds the library lock
          disk
runvars == <<phase, made, pc, lock, disk>>

All(x) == [v \in Vars |-> [c \in Chunks |-> x]]
Idle == <<"todo", 0, 0>>
Busy(c) == pc[c][1] \notin {"todo", "done", "failed"}
Step(c) == pc[c][1]
Failed == \E c \in Chunks : Step(c) = "failed"
Blank == /\ phase = "ready" /\ made = 0 /\ pc = [c \in Chunks |-> Idle] /\ lock = None

Begin == phase = "ready" /\ phase' = "create" /\ UNCHANGED <<made, pc, lock, disk>>
Refuse == phase = "ready" /\ phase' = "failed" /\ UNCHANGED <<made, pc, lock, disk>>
Create == /\ phase = "create" /\ made < NF
          /\ made' = made + 1 /\ disk' = [disk EXCEPT ![made + 1] = All("fill")]
          /\ UNCHANGED <<phase, pc, lock>>
Dispatch == phase = "create" /\ made = NF /\ phase' = "work" /\ UNCHANGED <<made, pc, lock, disk>>

Go(c, s) == pc' = [pc EXCEPT ![c] = s]
Take(c) == /\ phase = "work" /\ pc[c] = Idle /\ Cardinality({x \in Chunks : Busy(x)}) < W
           /\ Go(c, <<"wait", 0, 0>>) /\ UNCHANGED <<phase, made, lock, disk>>
Load(c) == /\ Step(c) = "wait" /\ lock = None /\ lock' = c
           /\ Go(c, <<"load", 0, 0>>) /\ UNCHANGED <<phase, made, disk>>
Loaded(c) == /\ Step(c) = "load" /\ lock' = None
             /\ Go(c, <<"compute", 0, 0>>) /\ UNCHANGED <<phase, made, disk>>
Store(c) == /\ Step(c) = "compute" /\ lock = None /\ lock' = c
            /\ Go(c, <<"open", 1, 0>>) /\ UNCHANGED <<phase, made, disk>>
Open(c) == /\ Step(c) = "open"
           /\ Go(c, <<"set", pc[c][2], 1>>) /\ UNCHANGED <<phase, made, lock, disk>>
Set(c) == /\ Step(c) = "set"
          /\ LET f == pc[c][2]  v == pc[c][3]
             IN /\ disk' = [disk EXCEPT ![f][v][c] = "good"]
                /\ Go(c, IF v < NV THEN <<"set", f, v + 1>> ELSE <<"close", f, 0>>)
          /\ UNCHANGED <<phase, made, lock>>
Close(c) == /\ Step(c) = "close"
            /\ LET f == pc[c][2]
               IN IF f < NF THEN Go(c, <<"open", f + 1, 0>>) /\ lock' = lock
                  ELSE Go(c, <<"done", 0, 0>>) /\ lock' = None
            /\ UNCHANGED <<phase, made, disk>>
Move(c) == Take(c) \/ Load(c) \/ Loaded(c) \/ Store(c) \/ Open(c) \/ Set(c) \/ Close(c)

(* something goes wrong in a worker, or while the files are created *)
FailIn(c) == /\ phase \in {"work", "failing"} /\ Busy(c) /\ Step(c) # "wait"
             /\ Go(c, <<"failed", 0, 0>>) /\ lock' = (IF lock = c THEN None ELSE lock)
             /\ phase' = "failing" /\ UNCHANGED <<made, disk>>
FailMain == /\ phase = "create" /\ phase' = "failed" /\ UNCHANGED <<made, pc, lock, disk>>
(* the others finish what they are at; nothing new is taken up *)
Report == /\ phase = "failing" /\ \A c \in Chunks : ~Busy(c)
          /\ phase' = "failed" /\ UNCHANGED <<made, pc, lock, disk>>
Succeed == /\ phase = "work" /\ \A c \in Chunks : Step(c) = "done"
           /\ phase' = "done" /\ UNCHANGED <<made, pc, lock, disk>>

Torn == {f \in Files : \E c \in Chunks : Step(c) \in {"set", "close"} /\ pc[c][2] = f}
Kill == /\ phase \in {"create", "work", "failing"}
        /\ disk' = [f \in Files |-> IF f \in Torn \/ (phase = "create" /\ f = made + 1) THEN All("torn") ELSE disk[f]]
        /\ phase' = "killed" /\ UNCHANGED <<made, pc, lock>>
Repeat == /\ phase \in {"done", "failed", "killed"}
          /\ phase' = "ready" /\ made' = 0 /\ pc' = [c \in Chunks |-> Idle] /\ lock' = None
          /\ UNCHANGED disk

Ended == phase \in {"done", "failed", "killed"}

(* ---- what has to hold ---- *)
(* one worker at a time inside the library *)
Exclusive == \A c, d \in Chunks : c # d => ~(Step(c) \in {"load", "open", "set", "close"} /\ Step(d) \in {"load", "open", "set", "close"})
Holder == \A c \in Chunks : Step(c) \in {"load", "open", "set", "close"} => lock = c
(* files this run has created hold nothing but fill values and results *)
Clean == phase # "killed" => \A f \in 1..made : \A v \in Vars : \A c \in Chunks : disk[f][v][c] \in {"fill", "good"}
(* success means everything is there *)
Whole == phase = "done" => \A f \in Files : \A v \in Vars : \A c \in Chunks : disk[f][v][c] = "good"
Honest == (Failed => phase \in {"failing", "failed", "killed"})
(* an ended run does nothing more *)
Quiet == phase \in {"done", "failed"} => \A c \in Chunks : ~Busy(c)
(* a result once written is never lost until the file is created anew *)
Kept == [][\A f \in Files : \A v \in Vars : \A c \in Chunks :
            (disk[f][v][c] = "good" /\ made' # f) => disk'[f][v][c] \in {"good", "torn"}]_runvars
=============================================================================
