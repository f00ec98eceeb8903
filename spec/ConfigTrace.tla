----------------------------- MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* Judges what became of configurations (Config).  Two kinds of records:    *)
(* kind "check": one configuration, valid or not, was run:                  *)
(*   conf, fmt, via ("dict", "ini", "yaml", "cli"), ok, named (what the error    *)
(*   names), touched (what was created, changed or removed), wrote          *)
(*   (variables of the output), err                                         *)
(* kind "same": one valid configuration was expressed in several ways:      *)
(*   conf, names (the names asked for, in the output), exprs: << [how, ok,  *)
(*   print, attrs, names, sched, progress, peak, cli, err] ... >>           *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>
C == INSTANCE Config WITH conf <- 0, lines <- 0, given <- 0, cli <- 0, checks <- 0, found <- 0, phase <- 0, touched <- 0

Set(s) == {s[k] : k \in 1..Len(s)}
Conf(r) == [opts |-> r.opts, step |-> r.step, vars |-> Set(r.vars), asked |-> r.asked, names |-> r.names, gone |-> Set(r.gone),
            supplied |-> Set(r.supplied), monthly |-> Set(r.monthly), period |-> r.period, freq |-> r.freq, chunks |-> r.chunks, workers |-> r.workers, state |-> r.state, crossed |-> r.crossed]

(* the reader of a file stops at an entry that is missing; the reader of    *)
(* the forcing may stumble over the period before anything is checked       *)
Unread(c, via, fmt) == \/ via # "dict" /\ c.gone # {}
                       \/ C!Readable(c) /\ (c.period = "nonsense" \/ (fmt = "ascii" /\ c.period # "inside"))
Expected(c, via, fmt) == IF Unread(c, via, fmt) THEN {} ELSE C!Named(c)
Check(r) ==
  LET c == Conf(r.conf)
      e == C!Errors(c)
      named == {r.named[k] : k \in 1..Len(r.named)}
  IN IF e # {}
     THEN Fails(~r.ok, <<r.id, "Rejects", e>>)
          \o Fails(r.touched = << >>, <<r.id, "Untouched", e, r.touched>>)
          \o Fails(r.ok \/ Expected(c, r.via, r.fmt) \subseteq named, <<r.id, "Names", Expected(c, r.via, r.fmt) \ named, r.err>>)
     ELSE IF c.crossed THEN Fails(~r.ok, <<r.id, "Crossed">>)
     ELSE Fails(r.ok, <<r.id, "Accepts", r.via, r.err>>)
          \o Fails(~r.ok \/ Set(r.wrote) = C!Vars(c), <<r.id, "Writes", r.wrote>>)

Recorded(c, e) == LET m == C!Resolve(c)
                  IN {o \in DOMAIN e.attrs \cap DOMAIN m : C!Canon(o, e.attrs[o]) # m[o]}
Expr(r, c, k) ==
  LET e == r.exprs[k]  f == r.exprs[1]
  IN Fails(e.ok, <<r.id, "Runs", e.how, e.err>>)
     \o (IF ~e.ok THEN << >> ELSE
         Fails(~f.ok \/ e.print = f.print, <<r.id, "Same", e.how, {r.aspects[x] : x \in {y \in 1..Len(e.print) : e.print[y] # f.print[y]}}>>)
         \o Fails(Recorded(c, e) = {}, <<r.id, "Means", e.how, Recorded(c, e)>>)
         \o Fails(Set(e.names) = Set(r.names), <<r.id, "NamesAsked", e.how, e.names>>)
         \o Fails(e.sched = e.cli.scheduler, <<r.id, "Scheduler", e.how, e.sched>>)
         \o Fails(e.peak = 0 \/ e.peak = e.cli.workers, <<r.id, "Workers", e.how, e.peak>>)
         \o Fails(e.progress = 2 \/ (e.progress = 1) = e.cli.verbose, <<r.id, "Verbose", e.how, e.progress>>))
RECURSIVE Exprs(_, _, _)
Exprs(r, c, k) == IF k > Len(r.exprs) THEN << >> ELSE Expr(r, c, k) \o Exprs(r, c, k + 1)

CovInit == [check |-> 0, invalid |-> 0, several |-> 0, crossed |-> 0, valid |-> 0, same |-> 0, exprs |-> 0, files |-> 0, defaults |-> 0, parallel |-> 0,
            step |-> 0, var |-> 0, novars |-> 0, names |-> 0, opt |-> 0, gone |-> 0, input |-> 0, monthly |-> 0, period |-> 0, freq |-> 0, chunks |-> 0, workers |-> 0, state |-> 0]
Kinds == {"step", "var", "novars", "names", "opt", "gone", "input", "monthly", "period", "freq", "chunks", "workers", "state"}
N(b) == IF b THEN 1 ELSE 0
Count(v, r) ==
  LET c == Conf(r.conf)  e == C!Errors(c)
      w == [v EXCEPT !.check = @ + N(r.kind = "check"), !.invalid = @ + N(r.kind = "check" /\ e # {}), !.several = @ + N(r.kind = "check" /\ Cardinality(e) > 1),
              !.crossed = @ + N(c.crossed), !.valid = @ + N(r.kind = "check" /\ e = {}), !.same = @ + N(r.kind = "same"),
              !.exprs = @ + (IF r.kind = "same" THEN Len(r.exprs) ELSE 0),
              !.files = @ + (IF r.kind = "same" THEN Cardinality({k \in 1..Len(r.exprs) : r.exprs[k].how[1] \in {"ini", "yaml"}}) ELSE 0),
              !.defaults = @ + (IF r.kind = "same" THEN Cardinality(DOMAIN C!Default \ DOMAIN c.opts) ELSE 0),
              !.parallel = @ + (IF r.kind = "same" THEN Cardinality({k \in 1..Len(r.exprs) : r.exprs[k].ok /\ r.exprs[k].peak > 1}) ELSE 0)]
  IN [k \in DOMAIN w |-> IF k \in Kinds THEN w[k] + Cardinality({x \in e : x[1] = k}) ELSE w[k]]

Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge == /\ i <= Len(T) /\ done' = FALSE /\ i' = i + 1
         /\ LET r == T[i]
            IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
               ELSE /\ bad' = AddBad(bad, IF r.kind = "check" THEN Check(r) ELSE Exprs(r, Conf(r.conf), 1))
                    /\ cov' = Count(cov, r) /\ ev' = ev + (IF r.kind = "check" THEN 1 ELSE Len(r.exprs))
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
