------------------------------ MODULE MC_Config ------------------------------
(* configurations composed of choices and of mistakes, then written, read   *)
(* and checked in any order; `Emit` hands the composed ones to the harness  *)
EXTENDS Config, Json
CONSTANTS Opts, MaxBad, MaxOpts, Quick, BadSteps
VARIABLES nbad
vars == <<cvars, nbad>>
Base == [opts |-> << >>, step |-> 60, vars |-> {}, asked |-> FALSE, names |-> "fine", gone |-> {}, supplied |-> {"prec", "t_min", "t_max", "wind"},
         monthly |-> {"dur", "t_pk"}, period |-> "inside", freq |-> "fine", chunks |-> "fine", workers |-> "fine", state |-> "fine", crossed |-> FALSE]
AllOpts == {"out_precision", "method", "lw_cloud", "lw_type", "prec_type", "out_prefix"} \cup DOMAIN Numbers \cup Flags
FewOpts == {"prec_type", "rain_scalar"}
Wrong == {0, -60, 7, 50, 400, 480, 720, 2880, 1000, -1440, 361}
FewWrong == {0, 7}
ValuesOf(o) == IF o \in DOMAIN Choices THEN (IF o = "method" THEN {"mtclim"} ELSE IF Quick THEN {"mix", "Triangle"} ELSE Written(o))
               ELSE IF o \in DOMAIN Numbers THEN Numbers[o]
               ELSE IF o \in Flags THEN {"True", "False"} ELSE {"forcing", "run", "a_b-c"}
SomeSteps == IF Quick THEN {60, 1440} ELSE {30, 60, 90, 180, 360, 240, 1440}
SomeVars(s) == IF Quick THEN {"prec", "wind"} ELSE IF s = 1440 THEN Daily ELSE Subdaily

MInit == /\ \E s \in SomeSteps :
              \E f \in {FALSE, TRUE} : (f \/ s # 1440) /\ conf = [Base EXCEPT !.step = s, !.asked = f, !.vars = IF f THEN {"prec"} ELSE {}]
         /\ lines = {} /\ given = << >> /\ cli = << >> /\ checks = {} /\ found = {} /\ phase = "compose" /\ touched = FALSE /\ nbad = 0
Same == UNCHANGED <<lines, given, cli, checks, found, phase, touched>>
Good == /\ phase = "compose" /\ Same /\ UNCHANGED nbad
        /\ \/ \E o \in Opts \ DOMAIN conf.opts : \E v \in ValuesOf(o) :
                Cardinality(DOMAIN conf.opts) < MaxOpts /\ conf' = [conf EXCEPT !.opts = (o :> v) @@ @]
           \/ conf.asked /\ \E v \in SomeVars(conf.step) \ conf.vars : conf' = [conf EXCEPT !.vars = @ \cup {v}]
           \/ conf.asked /\ "wind" \notin conf.vars /\ "wind" \in conf.supplied /\ conf' = [conf EXCEPT !.supplied = @ \ {"wind"}]
           \/ Resolve(conf).prec_type = "uniform" /\ conf.monthly # {} /\ conf' = [conf EXCEPT !.monthly = {}]
Spoil(c) == conf' = c /\ Cardinality(Errors(c)) > Cardinality(Errors(conf))
Bad == /\ phase = "compose" /\ nbad < MaxBad /\ nbad' = nbad + 1 /\ Same
       /\ \/ \E s \in BadSteps : Spoil([conf EXCEPT !.step = s])
          \/ \E v \in {"foo"} \cup (IF conf.step = 1440 THEN {"temp", "spec_humid"} ELSE {"t_max", "pet"}) :
               Spoil([conf EXCEPT !.asked = TRUE, !.vars = (IF conf.asked THEN @ ELSE {"prec"}) \cup {v}])
          \/ Spoil([conf EXCEPT !.asked = TRUE, !.vars = {}])
          \/ conf.asked /\ Cardinality(conf.vars) > 1 /\ Spoil([conf EXCEPT !.names = "twice"])
          \/ conf.asked /\ conf.vars # {} /\ Spoil([conf EXCEPT !.names = "missing"])
          \/ \E o \in (Opts \cap DOMAIN Choices) \cup {"forcing_fmt"} : Spoil([conf EXCEPT !.opts = (o :> "bogus") @@ @])
          \/ \E o \in Opts \cap DOMAIN Numbers : Spoil([conf EXCEPT !.opts = (o :> "number") @@ @])
          \/ \E o \in Opts \cap Ranged : Spoil([conf EXCEPT !.opts = (o :> "range") @@ @])
          \/ \E k \in {"size", "dim"} : Spoil([conf EXCEPT !.chunks = k])
          \/ Spoil([conf EXCEPT !.workers = "nonsense"])
          \/ \E k \in {"short", "lacks", "unread"} : Spoil([conf EXCEPT !.state = k])
          \/ \E k \in {"forcing", "forcing_vars", "out_dir", "domain", "state"} : Spoil([conf EXCEPT !.gone = @ \cup {k}])
          \/ \E v \in {"prec", "t_min", "t_max", "wind"} : Spoil([conf EXCEPT !.supplied = @ \ {v}])
          \/ \E v \in {"dur", "t_pk"} : Spoil([conf EXCEPT !.opts = ("prec_type" :> "Triangle") @@ @, !.monthly = @ \ {v}])
          \/ \E p \in {"early", "late", "backwards", "nonsense"} : Spoil([conf EXCEPT !.period = p])
          \/ Spoil([conf EXCEPT !.freq = "nonsense"])
          \/ Valid(conf) /\ ~conf.crossed /\ conf' = [conf EXCEPT !.crossed = TRUE]
Next == \/ Good \/ Bad
        \/ (Write /\ UNCHANGED nbad)
        \/ \E l \in lines : Read(l) /\ UNCHANGED nbad
        \/ (Start /\ UNCHANGED nbad)
        \/ \E k \in checks : Check(k) /\ UNCHANGED nbad
        \/ ((Refuse \/ Touch \/ Finish) /\ UNCHANGED nbad)
Spec == MInit /\ [][Next]_vars
(* the composed configuration; for the valid ones also every option written out *)
Out == IF phase = "read" /\ <<"#">> \in lines /\ given = << >> /\ Cardinality(lines) = Cardinality(DOMAIN conf.opts) + 1
       THEN PrintT("BEHAV:" \o ToJson([conf |-> conf, full |-> Resolve(conf), allvars |-> Vars(conf), errs |-> Errors(conf), nbad |-> nbad]))
       ELSE TRUE
=============================================================================
