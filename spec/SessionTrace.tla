---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Judges histories of runs in one process (Session).  A record:            *)
(*  aspects: names of what is compared                                      *)
(*  fresh: per configuration [ok, print]: did it run in a process of its    *)
(*    own, and a fingerprint of every aspect of what it wrote               *)
(*  ops: << [op, conf, ok, print, sound, err] ... >>                         *)
(* sound: what is written is alike in two fresh processes                   *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>

(* Session!Isolated *)
Op(r, k) ==
  LET o == r.ops[k]  f == r.fresh[o.conf]
  IN IF o.op = "run"
     THEN IF f.ok
          THEN Fails(o.ok, <<r.id, "Runs", k, o.conf, o.err>>)
               \o Fails(~o.ok \/ o.print = f.print, <<r.id, "Isolated", k, o.conf, {r.aspects[x] : x \in {y \in 1..Len(f.print) : o.print[y] # f.print[y]}}>>)
          ELSE Fails(~o.ok, <<r.id, "Refuses", k, o.conf>>)
     ELSE IF o.op = "setup" THEN Fails(o.ok \/ ~f.ok, <<r.id, "SetsUp", k, o.conf, o.err>>)
     ELSE << >>
RECURSIVE Walk(_, _)
Walk(r, k) == IF k > Len(r.ops) THEN << >> ELSE Op(r, k) \o Walk(r, k + 1)

CovInit == [run |-> 0, setup |-> 0, fail |-> 0, refused |-> 0, again |-> 0, other |-> 0]
Count(c, r) ==
  LET K == 1..Len(r.ops)
      N(S) == Cardinality(S)
      Runs == {k \in K : r.ops[k].op = "run"}
  IN [c EXCEPT !.run = @ + N(Runs), !.setup = @ + N({k \in K : r.ops[k].op = "setup"}), !.fail = @ + N({k \in K : r.ops[k].op = "fail"}),
        !.refused = @ + N({k \in Runs : ~r.fresh[r.ops[k].conf].ok}),
        !.again = @ + N({k \in Runs : \E j \in Runs : j < k /\ r.ops[j].conf = r.ops[k].conf}),
        !.other = @ + N({k \in Runs : \E j \in K : j < k /\ r.ops[j].conf # r.ops[k].conf})]

Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge == /\ i <= Len(T) /\ done' = FALSE /\ i' = i + 1
         /\ LET r == T[i]
            IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
               ELSE bad' = AddBad(bad, Walk(r, 1)) /\ cov' = Count(cov, r) /\ ev' = ev + Len(r.ops)
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
