------------------------------- MODULE MC_Run -------------------------------
(* runs repeated until one succeeds, with a limited number of faults; hist *)
(* is the history of the faults, as the harness needs it to repeat them    *)
EXTENDS Run, TLC, Json
CONSTANTS Faults, Record, Fuse       \* Fuse: 0 lets faults happen anywhere; else how far apart a simulation spreads them
VARIABLES left, hist, order, fuse
vars == <<phase, made, pc, lock, disk, left, hist, order, fuse>>

(* how many chunks have come as far as writing file f (in this run) *)
Nth(c, f) == Cardinality({d \in Chunks : d # c /\ (Step(d) = "done" \/ (Step(d) \in {"open", "set", "close"} /\ pc[d][2] > f))}) + 1
Reached(c) == Cardinality({d \in Chunks : d # c /\ Step(d) \in {"load", "compute", "open", "set", "close", "done"}}) + 1
Rec(e) == IF Record THEN hist' = Append(hist, e) ELSE hist' = hist
Fault(kind, c) ==
  LET s == Step(c)  f == pc[c][2]
  IN Rec([kind |-> kind, step |-> s, file |-> f, var |-> pc[c][3],
          nth |-> IF s \in {"load", "compute"} THEN Reached(c) ELSE Nth(c, f), chunk |-> c])
KillSomewhere ==
  /\ Kill
  /\ IF phase = "create" THEN Rec([kind |-> "kill", step |-> "create", file |-> made + 1, var |-> 0, nth |-> 0, chunk |-> 0])
     ELSE \E c \in Chunks : Busy(c) /\ Step(c) # "wait" /\ Fault("kill", c)
Init == /\ fuse \in 0..Fuse /\ Blank /\ left = Faults /\ hist = << >> /\ order = << >>
        /\ disk \in [Files -> {All("absent"), All("old")}]
Wrong ==
  /\ left > 0 /\ fuse = 0 /\ left' = left - 1 /\ UNCHANGED order /\ fuse' \in 0..Fuse
  /\ \/ \E c \in Chunks : FailIn(c) /\ Fault("error", c)
     \/ FailMain /\ Rec([kind |-> "error", step |-> "create", file |-> made + 1, var |-> 0, nth |-> 0, chunk |-> 0])
     \/ Refuse /\ Rec([kind |-> "refuse", step |-> "ready", file |-> 0, var |-> 0, nth |-> 0, chunk |-> 0])
     \/ KillSomewhere
Right ==
  /\ UNCHANGED <<left, hist>> /\ fuse' = (IF fuse > 0 THEN fuse - 1 ELSE 0)
  /\ \/ (Begin \/ Create \/ Dispatch \/ Report \/ Succeed) /\ UNCHANGED order
     \/ \E c \in Chunks : (phase = "work" \/ (phase = "failing" /\ Busy(c))) /\ Move(c)
                          /\ order' = IF Record THEN Append(order, c) ELSE order
     \/ phase \in {"failed", "killed"} /\ Repeat /\ order' = << >>
(* a successful run is repeated as long as there are faults left *)
Again == phase = "done" /\ left > 0 /\ Repeat /\ left' = left - 1 /\ UNCHANGED order /\ fuse' \in 0..Fuse
         /\ Rec([kind |-> "none", step |-> "done", file |-> 0, var |-> 0, nth |-> 0, chunk |-> 0])
Next == Wrong \/ Right \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Right)
Settles == <>[](phase = "done")

(* for simulation: print the history once all is done *)
Emit == (phase = "done" /\ left = 0) => PrintT("BEHAV:" \o ToJson([hist |-> hist, order |-> order]))
=============================================================================
