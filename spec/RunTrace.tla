------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Judges recorded lives of runs against Run.  A record is a history of    *)
(* attempts at a run into one directory:                                   *)
(*  active: per cell 1 or 0; shape, sizes: of the grid and of its chunks    *)
(*  attempts: << [kind: "none", "error", "kill", "refuse", fired,          *)
(*    nv: variables per file, outcome: "ok", "error", "killed", "timeout", late: calls on output   *)
(*    files after its end,                                                  *)
(*    trace: << [e: "create"/"session", f, c: codes] ... >> files as they   *)
(*      were whenever one was closed,                                       *)
(*    how: <<kind of workers, step of the fault>>,                           *)
(*    calls: << <<thread, 1 begin / 0 end / 2 gone, file or 0, what, process>> ... >>, *)
(*    after: << [there, readable, changed, codes] per file >>,              *)
(*    frame: aspects in which files differ from the reference] ... >>       *)
(* Codes, per variable and cell: 0 fill, 1 the result, 2 part of it,        *)
(* 3 something else.                                                        *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, a, bad, cov, ev, done
vars == <<i, a, bad, cov, ev, done>>

Active(r, k) == r.active[((k - 1) % Len(r.active)) + 1] = 1
Whole(r, x, c) == Len(c) = x.nv * Len(r.active) /\ \A k \in 1..Len(c) : c[k] = (IF Active(r, k) THEN 1 ELSE 0)
(* Placement: the chunk a cell belongs to *)
P == INSTANCE Placement
ChunkOf(r, k) == P!ChunkIndex(r.shape, r.sizes, ((k - 1) % Len(r.active)) + 1)
NoForeign(c) == \A k \in 1..Len(c) : c[k] # 3

(* Run!Create, Run!Set / Run!Close as seen from outside, event by event;    *)
(* disk: file -> codes as far as known, << >> if not                        *)
Unknown(c) == c = << >>
EventClauses(r, n, k, e, disk) ==
  IF e.e = "create"
  THEN Fails(\A x \in 1..Len(e.c) : e.c[x] = 0, <<r.id, "CreatedBlank", n, k>>)
       \o Fails(Len(e.c) = r.attempts[n].nv * Len(r.active) \/ r.attempts[n].how[2] = "create", <<r.id, "CreatedWhole", n, k>>)
  ELSE Fails(NoForeign(e.c), <<r.id, "Foreign", n, k>>)
       \o Fails(\A x \in 1..Len(e.c) : e.c[x] # 0 => Active(r, x), <<r.id, "Inactive", n, k>>)
       \o Fails(Unknown(disk[e.f]) \/ Unknown(e.c) \/ \A x \in 1..Len(e.c) : disk[e.f][x] = 1 => e.c[x] = 1, <<r.id, "Lost", n, k>>)
       \o Fails(Unknown(disk[e.f]) \/ Unknown(e.c) \/ Cardinality({ChunkOf(r, x) : x \in {y \in 1..Len(e.c) : disk[e.f][y] # e.c[y]}}) <= 1,
                <<r.id, "Own", n, k>>)
RECURSIVE Walk(_, _, _, _)
Walk(r, n, k, disk) ==
  LET t == r.attempts[n].trace
  IN IF k > Len(t) THEN << >>
     ELSE EventClauses(r, n, k, t[k], disk) \o Walk(r, n, k + 1, [disk EXCEPT ![t[k].f] = t[k].c])

(* Run!Exclusive: one thread at a time inside the library, one session at a *)
(* time on a file.  inside: threads in a call; open: <<thread, file>>       *)
RECURSIVE Library(_, _, _, _, _)
Library(r, n, k, inside, open) ==
  LET t == r.attempts[n].calls
  IN IF k > Len(t) THEN << >>
     ELSE LET c == t[k]  th == c[1]
              over == c[2] = 1 /\ \E o \in inside : o[1] # th /\ o[2] = c[5]
              sess == c[2] = 1 /\ c[4] = "open" /\ c[3] # 0 /\ \E o \in open : o[2] = c[3] /\ o[1] # th
          IN IF over THEN << <<r.id, "Overlap", n, k, c>> >>
             ELSE IF sess THEN << <<r.id, "TwoSessions", n, k, c>> >>
             ELSE Library(r, n, k + 1,
                          IF c[2] = 1 THEN inside \cup {<<th, c[5]>>} ELSE inside \ {<<th, c[5]>>},
                          IF c[2] = 1 /\ c[4] = "open" /\ c[3] # 0 THEN open \cup {<<th, c[3]>>}
                          ELSE IF c[2] = 0 /\ c[4] = "close" /\ c[3] # 0 THEN open \ {<<th, c[3]>>}
                          ELSE IF c[2] = 2 THEN {o \in open : o[1] # th} ELSE open)

(* a creation which failed half way may leave a file without its variables *)
Made(x, f) == \E k \in 1..Len(x.trace) : x.trace[k].e = "create" /\ x.trace[k].f = f /\ x.trace[k].c # << >>
Complete(r, x) == \A f \in 1..Len(x.after) : x.after[f].there = 1 /\ x.after[f].readable = 1 /\ Whole(r, x, x.after[f].codes)
Attempt(r, n) ==
  LET x == r.attempts[n]  nf == Len(x.after)
      expect == IF x.kind = "refuse" THEN {"error"}
                ELSE IF x.fired /\ x.kind = "kill" THEN (IF x.how[1] = "" THEN {"killed"} ELSE {"error", "ok"})
                ELSE IF x.fired THEN {"error", "ok"} ELSE {"ok"}
  IN Walk(r, n, 1, [f \in 1..nf |-> << >>])
     \o Library(r, n, 1, {}, {})
     \o Fails(x.outcome \in expect, <<r.id, "Reports", n, x.kind, x.fired, x.outcome, x.how>>)
     \o (IF x.outcome = "ok"
         THEN Fails(Complete(r, x), <<r.id, "Whole", n, {f \in 1..nf : ~Whole(r, x, x.after[f].codes)}>>)
              \o Fails(x.frame = << >>, <<r.id, "Frame", n, x.frame>>)
         ELSE Fails(x.kind # "refuse" \/ \A f \in 1..nf : x.after[f].changed = 0, <<r.id, "Untouched", n>>)
              \o (IF x.outcome = "error"
                  THEN Fails(\A f \in 1..nf : Made(x, f) => x.after[f].readable = 1 /\ Len(x.after[f].codes) = x.nv * Len(r.active), <<r.id, "Readable", n>>)
                  ELSE << >>)
              \o Fails(\A f \in 1..nf : x.after[f].changed = 1 => NoForeign(x.after[f].codes), <<r.id, "ForeignLeft", n, x.outcome>>))
     \o Fails(x.late = 0, <<r.id, "Quiet", n, x.late>>)

B(x) == IF x THEN 1 ELSE 0
CovInit == [attempt |-> 0, ok |-> 0, error |-> 0, killed |-> 0, refused |-> 0, unfired |-> 0, overleft |-> 0, session |-> 0,
            create |-> 0, call |-> 0, inactive |-> 0, threads |-> 0, partial |-> 0]
Count(c, r, n) ==
  LET x == r.attempts[n]
  IN [c EXCEPT !.attempt = @ + 1, !.ok = @ + B(x.outcome = "ok"), !.error = @ + B(x.outcome = "error"), !.killed = @ + B(x.outcome = "killed"),
        !.refused = @ + B(x.kind = "refuse"), !.unfired = @ + B(x.kind \in {"error", "kill"} /\ ~x.fired), !.overleft = @ + B(n > 1 /\ x.outcome = "ok"),
        !.session = @ + Cardinality({k \in 1..Len(x.trace) : x.trace[k].e = "session"}),
        !.create = @ + Cardinality({k \in 1..Len(x.trace) : x.trace[k].e = "create"}),
        !.call = @ + Len(x.calls), !.inactive = @ + B(\E k \in 1..Len(r.active) : r.active[k] = 0), !.threads = @ + B(x.calls # << >> /\ \E k \in 1..Len(x.calls) : x.calls[k][1] > 1),
        !.partial = @ + B(x.outcome # "ok" /\ \E f \in 1..Len(x.after) : \E k \in 1..Len(x.after[f].codes) : x.after[f].changed = 1 /\ x.after[f].codes[k] = 1)]

Init == i = 1 /\ a = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ i' = i + 1 /\ a' = 1 /\ UNCHANGED <<cov, ev>>
        ELSE /\ bad' = AddBad(bad, Attempt(r, a)) /\ cov' = Count(cov, r, a)
             /\ ev' = ev + 1 + Len(r.attempts[a].trace) + Len(r.attempts[a].calls)
             /\ IF a = Len(r.attempts) THEN i' = i + 1 /\ a' = 1 ELSE i' = i /\ a' = a + 1
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, a, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
