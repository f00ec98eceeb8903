----------------------------- MODULE MC_Session -----------------------------
(* every history of set-ups, runs and failures up to a length; hist is what *)
(* the harness repeats with the real code                                   *)
EXTENDS Session, Json
CONSTANTS Most, Record
VARIABLE hist
vars == <<heap, next, glob, own, inst, memo, out, hist>>
A == "a"  B == "b"
C1 == << [opts |-> (A :> 1) , units |-> << >>], [opts |-> (B :> 1), units |-> ("x" :> 1)], [opts |-> (A :> 2) @@ (B :> 2), units |-> ("x" :> 2)] >>
C2 == << [opts |-> << >>, units |-> << >>], [opts |-> (A :> 1), units |-> ("x" :> 1)] >>
O1 == {A, B}
N1 == {"x"}
Count == Len(hist)
E(op, s, c) == hist' = Append(hist, IF Record THEN [op |-> op, slot |-> s, conf |-> c] ELSE [op |-> op, slot |-> 0, conf |-> c])
MInit == Init /\ hist = << >>
Next ==
  /\ Count < Most
  /\ \/ \E s \in Slots : \E c \in DOMAIN Confs : (~Alive(s) \/ inst[s].st = "ran") /\ Setup(s, c) /\ E("setup", s, c)
     \/ \E s \in Slots : Run(s) /\ E("run", s, inst[s].conf)
     \/ \E s \in Slots : Fail(s) /\ E("fail", s, inst[s].conf)
     \/ \E s \in Slots : Alive(s) /\ inst[s].st = "ran" /\ Drop(s) /\ E("drop", s, inst[s].conf)
Spec == MInit /\ [][Next]_vars
Sim == [conf |-> 0]
Emit == (Count = Most) => PrintT("BEHAV:" \o ToJson([hist |-> hist]))
View == <<heap, glob, own, inst, memo, out, Count>>
=============================================================================
