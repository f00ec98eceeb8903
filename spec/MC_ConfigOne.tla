---------------------------- MODULE MC_ConfigOne ----------------------------
(* every single choice and every single mistake, one at a time: each of     *)
(* them on its own decides between a run and a refusal; `Out` hands them to *)
(* the harness                                                              *)
EXTENDS Config, Json
Base(s) == [opts |-> << >>, step |-> s, vars |-> {"prec"}, asked |-> TRUE, names |-> "fine", gone |-> {}, supplied |-> {"prec", "t_min", "t_max", "wind"},
            monthly |-> {"dur", "t_pk"}, period |-> "inside", freq |-> "fine", chunks |-> "fine", workers |-> "fine", state |-> "fine", crossed |-> FALSE]
Bogus == [out_precision |-> {"x", "f16", "f2"}, method |-> {"x", "mtclimb", "thornthwaite"}, forcing_fmt |-> {"x", "vic", "csv"},
          lw_cloud |-> {"x", "cloud", "deardorff"}, prec_type |-> {"x", "tri", "triangular"}, lw_type |-> {"x", "prat", "sat"}]
With(c, o, v) == [c EXCEPT !.opts = (o :> v) @@ @]
NotSteps == {0, -60, -1440} \cup {s \in 1..59 : s % 3 = 1 /\ 1440 % s # 0} \cup {50, 100, 200, 250, 300, 350, 361, 400, 480, 500, 700, 720, 1000, 1439, 1441, 2880}
OneStep == {Base(s) : s \in Steps \cup NotSteps}
OneVar == UNION {{[Base(s) EXCEPT !.vars = {v}] : v \in Daily \cup Subdaily \cup {"foo", "t_day", "Prec", "pressure"}} : s \in {60, 1440}}
TwoVars == UNION {{[Base(s) EXCEPT !.vars = {"prec", v}] : v \in Daily \cup Subdaily \cup {"foo"}} : s \in {60, 1440}}
AllVars == {[Base(60) EXCEPT !.vars = Subdaily], [Base(1440) EXCEPT !.vars = Daily], [Base(60) EXCEPT !.vars = {}], [Base(60) EXCEPT !.asked = FALSE, !.vars = {}]}
OneChoice == UNION {UNION {{With(Base(s), o, v) : v \in (IF o \in {"method", "forcing_fmt"} THEN {} ELSE Written(o)) \cup Bogus[o]} : o \in DOMAIN Choices} : s \in {60, 1440}}
OneNumber == UNION {{With(Base(60), o, v) : v \in Numbers[o] \cup {"number"}} : o \in DOMAIN Numbers}
OneRange == {With(Base(s), o, "range") : <<s, o>> \in {30, 60, 360, 1440} \X Ranged}
OneChunks == {[Base(s) EXCEPT !.chunks = k] : <<s, k>> \in {30, 60, 360, 1440} \X {"size", "dim"}}
OneWorkers == {[Base(s) EXCEPT !.workers = "nonsense"] : s \in {30, 60, 360, 1440}}
OneState == {[Base(s) EXCEPT !.state = k] : <<s, k>> \in {30, 60, 360, 1440} \X {"short", "lacks", "unread"}}
OneFlag == UNION {{With(Base(s), o, v) : v \in {"True", "False"}} : <<s, o>> \in {60, 1440} \X Flags}
OneName == {[Base(s) EXCEPT !.vars = {"prec", "wind"}, !.names = n] : <<s, n>> \in {60, 1440} \X {"fine", "twice", "missing"}}
OneGone == {[Base(s) EXCEPT !.gone = {k}] : <<s, k>> \in {60, 1440} \X {"forcing", "forcing_vars", "out_dir", "domain", "state"}}
OneInput == {[Base(s) EXCEPT !.supplied = @ \ {v}, !.vars = w] : <<s, v, w>> \in {60, 1440} \X {"prec", "t_min", "t_max", "wind"} \X {{"prec"}, {"prec", "wind"}}}
OneMonth == {[With(Base(60), "prec_type", p) EXCEPT !.monthly = @ \ {v}] : <<p, v>> \in {"uniform", "triangle", "Triangle", "mix", "Mix"} \X {"dur", "t_pk"}}
OnePeriod == {[Base(s) EXCEPT !.period = p] : <<s, p>> \in {60, 1440} \X {"early", "late", "backwards", "nonsense"}}
OneFreq == {[Base(s) EXCEPT !.freq = "nonsense"] : s \in {60, 1440}}
OneCrossed == {[Base(s) EXCEPT !.crossed = TRUE] : s \in {60, 1440}}
All == OneStep \cup OneVar \cup TwoVars \cup AllVars \cup OneChoice \cup OneNumber \cup OneFlag \cup OneName \cup OneGone \cup OneInput \cup OneMonth \cup OnePeriod \cup OneFreq \cup OneRange \cup OneChunks \cup OneWorkers \cup OneState \cup OneCrossed
Init == /\ conf \in All /\ lines = {} /\ given = << >> /\ cli = << >> /\ checks = {} /\ found = {} /\ phase = "compose" /\ touched = FALSE
Next == Write \/ (\E l \in lines : Read(l)) \/ Start \/ (\E k \in checks : Check(k)) \/ Refuse \/ Touch \/ Finish
Spec == Init /\ [][Next]_cvars
(* no more than one thing is wrong, unless one mistake is several *)
Few == Cardinality(Errors(conf)) <= 2
Out == IF phase = "compose"
       THEN PrintT("BEHAV:" \o ToJson([conf |-> conf, full |-> Resolve(conf), allvars |-> Vars(conf), errs |-> Errors(conf)]))
       ELSE TRUE
=============================================================================
