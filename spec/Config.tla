------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configurations: what they mean, what is wrong with them, and the life of *)
(* one from the lines of a file to a run or a refusal.                      *)
(*                                                                         *)
(* A configuration is a record                                              *)
(*  opts:     options that are given -> value, as text                      *)
(*  step:     time step in minutes; 0 if it is not a whole number           *)
(*  vars:     output variables asked for                                    *)
(*  asked:    are any given at all (or is the default meant)                *)
(*  names:    "fine", "twice", "missing": names in the output               *)
(*  gone:     entries that are missing or empty                             *)
(*  supplied: variables the input has (constant ones included)              *)
(*  monthly:  monthly parameters the domain has                             *)
(*  period:   "inside", "early", "late", "backwards", "nonsense"            *)
(*  freq:     "fine", "nonsense"                                            *)
(*  chunks:   "fine", "size" (none), "dim" (one the domain does not have)    *)
(*  workers:  "fine", "nonsense": number of threads                          *)
(*  state:    "fine", "short" (of days), "lacks" (a variable), "unread"       *)
(*  crossed:  is daily maximum temperature below minimum somewhere          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- what is documented ---- *)
Default == [method |-> "mtclim", out_prefix |-> "forcing", out_precision |-> "f4", forcing_fmt |-> "netcdf", calendar |-> "standard",
            utc_offset |-> "False", period_ending |-> "False", lw_cloud |-> "cloud_deardorff", lw_type |-> "prata", prec_type |-> "uniform",
            sw_prec_thresh |-> "0.0", rain_scalar |-> "0.75", tdew_tol |-> "1e-06", tmax_daylength_fraction |-> "0.67",
            tday_coef |-> "0.45", lapse_rate |-> "0.0065"]
DefaultVars == {"temp", "prec", "shortwave", "longwave", "vapor_pressure", "rel_humid"}
Daily == {"t_min", "t_max", "prec", "vapor_pressure", "shortwave", "tskc", "pet", "wind", "daylength"}
Subdaily == {"temp", "prec", "shortwave", "vapor_pressure", "air_pressure", "rel_humid", "spec_humid", "longwave", "tskc", "wind"}
Steps == {s \in 1..360 : 1440 % s = 0} \cup {1440}
Choices == [out_precision |-> {"f4", "f8"}, method |-> {"mtclim", "passthrough"}, forcing_fmt |-> {"netcdf", "ascii", "binary", "data"},
            lw_cloud |-> {"cloud_deardorff", "default"}, prec_type |-> {"uniform", "triangle", "mix"},
            lw_type |-> {"default", "tva", "anderson", "brutsaert", "satterlund", "idso", "prata"}]
(* capitalization does not matter for these *)
AnyCase == {"lw_cloud", "lw_type", "prec_type"}
Spellings == << <<"CLOUD_DEARDORFF", "cloud_deardorff">>, <<"Cloud_Deardorff", "cloud_deardorff">>, <<"DEFAULT", "default">>, <<"Default", "default">>,
                <<"UNIFORM", "uniform">>, <<"TRIANGLE", "triangle">>, <<"Triangle", "triangle">>, <<"MIX", "mix">>, <<"Mix", "mix">>,
                <<"TVA", "tva">>, <<"ANDERSON", "anderson">>, <<"Brutsaert", "brutsaert">>, <<"SATTERLUND", "satterlund">>,
                <<"Idso", "idso">>, <<"PRATA", "prata">>, <<"Prata", "prata">> >>
Lower(v) == IF \E k \in 1..Len(Spellings) : Spellings[k][1] = v
            THEN Spellings[CHOOSE k \in 1..Len(Spellings) : Spellings[k][1] = v][2] ELSE v
Canon(o, v) == IF o \in AnyCase THEN Lower(v) ELSE v
Written(o) == IF o \in AnyCase THEN Choices[o] \cup {Spellings[k][1] : k \in {x \in 1..Len(Spellings) : Spellings[x][2] \in Choices[o]}} ELSE Choices[o]
Numbers == [sw_prec_thresh |-> {"0.0", "1.5", "4.0"}, rain_scalar |-> {"0.75", "0.6", "1.0"}, tdew_tol |-> {"1e-06", "0.0001"},
            tmax_daylength_fraction |-> {"0.67", "0.5", "0.8"}, tday_coef |-> {"0.45", "0.3", "0.0"}, lapse_rate |-> {"0.0065", "0.005", "0.008"}]
(* those which have a range, "range" is a value outside of it *)
Ranged == {"rain_scalar", "tday_coef", "tmax_daylength_fraction", "tdew_tol"}
Flags == {"utc_offset", "period_ending"}

(* ---- what a configuration means ---- *)
Value(c, o) == IF o \in DOMAIN c.opts THEN c.opts[o] ELSE Default[o]
Resolve(c) == [o \in DOMAIN Default |-> Canon(o, Value(c, o))]
Vars(c) == IF c.asked THEN c.vars ELSE DefaultVars

(* ---- what is wrong with it ---- *)
Allowed(c) == IF c.step = 1440 THEN Daily ELSE Subdaily
StepError(c) == IF c.step \in Steps THEN {} ELSE {<<"step">>}
VarErrors(c) == (IF Vars(c) = {} THEN {<<"novars">>} ELSE {})
                \cup (IF c.step \in Steps THEN {<<"var", v>> : v \in Vars(c) \ Allowed(c)} ELSE {<<"var", v>> : v \in Vars(c) \ (Daily \cup Subdaily)})
                \cup (IF c.names = "fine" THEN {} ELSE {<<"names">>})
OptErrors(c) == {<<"opt", o>> : o \in {x \in DOMAIN Choices : Canon(x, Value(c, x)) \notin Choices[x]}}
                \cup {<<"opt", o>> : o \in {x \in DOMAIN Numbers \cap DOMAIN c.opts : c.opts[x] = "number"}}
                \cup {<<"opt", o>> : o \in {x \in Ranged \cap DOMAIN c.opts : c.opts[x] = "range"}}
                \cup (IF c.chunks = "size" THEN {<<"chunks">>} ELSE {}) \cup (IF c.workers = "fine" THEN {} ELSE {<<"workers">>})
GoneErrors(c) == {<<"gone", k>> : k \in c.gone}
(* these can only be seen where the input can be read *)
Readable(c) == /\ c.gone \cap {"forcing", "forcing_vars", "domain"} = {}
               /\ Value(c, "forcing_fmt") \in Choices.forcing_fmt
InputErrors(c) == {<<"input", v>> : v \in {"prec", "t_min", "t_max"} \ c.supplied}
                  \cup (IF c.chunks = "dim" THEN {<<"chunks">>} ELSE {})
                  \cup (IF c.state = "fine" \/ "state" \in c.gone \/ c.period # "inside" THEN {} ELSE {<<"state">>})
                  \cup (IF "wind" \in Vars(c) /\ "wind" \notin c.supplied THEN {<<"input", "wind">>} ELSE {})
                  \cup (IF Resolve(c).prec_type \in {"triangle", "mix"} THEN {<<"monthly", v>> : v \in {"dur", "t_pk"} \ c.monthly} ELSE {})
(* named together in one error *)
Named(c) == StepError(c) \cup VarErrors(c) \cup OptErrors(c) \cup GoneErrors(c) \cup (IF Readable(c) THEN InputErrors(c) ELSE {})
(* errors of their own *)
Other(c) == (IF c.period = "inside" THEN {} ELSE {<<"period">>}) \cup (IF c.freq = "fine" THEN {} ELSE {<<"freq">>})
Errors(c) == Named(c) \cup Other(c)
Valid(c) == Errors(c) = {}

(* ---- the life of a configuration ---- *)
VARIABLES conf,     \* the configuration
          lines,    \* what is still to be read of it: << <<option, value>> ... >> in any order
          given,    \* what has been read
          cli,      \* options of the command line -> value
          checks,   \* checks which still have to be made
          found,    \* problems found
          phase, touched
cvars == <<conf, lines, given, cli, checks, found, phase, touched>>
Checks == {"step", "vars", "opts", "gone", "input", "other"}
Of(k, c) == CASE k = "step" -> StepError(c) [] k = "vars" -> VarErrors(c) [] k = "opts" -> OptErrors(c) [] k = "gone" -> GoneErrors(c)
              [] k = "input" -> IF Readable(c) THEN InputErrors(c) ELSE {} [] k = "other" -> Other(c)
Write == /\ phase = "compose" /\ phase' = "read"
         /\ lines' = {<<o, conf.opts[o]>> : o \in DOMAIN conf.opts} \cup {<<"#">>}
         /\ given' = << >> /\ UNCHANGED <<conf, cli, checks, found, touched>>
(* in any order; a comment or an empty line means nothing *)
Read(l) == /\ phase = "read" /\ l \in lines /\ lines' = lines \ {l}
           /\ given' = IF l = <<"#">> THEN given ELSE (l[1] :> l[2]) @@ given
           /\ UNCHANGED <<conf, cli, checks, found, phase, touched>>
Start == /\ phase = "read" /\ lines = {} /\ phase' = "check" /\ checks' = Checks /\ found' = {}
         /\ UNCHANGED <<conf, lines, given, cli, touched>>
Check(k) == /\ phase = "check" /\ k \in checks /\ checks' = checks \ {k}
            /\ found' = found \cup Of(k, [conf EXCEPT !.opts = given])
            /\ UNCHANGED <<conf, lines, given, cli, phase, touched>>
Refuse == /\ phase = "check" /\ checks = {} /\ found # {} /\ phase' = "refused" /\ UNCHANGED <<conf, lines, given, cli, checks, found, touched>>
Touch == /\ phase = "check" /\ checks = {} /\ found = {} /\ phase' = "running" /\ touched' = TRUE
         /\ UNCHANGED <<conf, lines, given, cli, checks, found>>
Finish == /\ phase = "running" /\ phase' = IF conf.crossed THEN "failed" ELSE "done"
          /\ UNCHANGED <<conf, lines, given, cli, checks, found, touched>>

(* ---- what has to hold ---- *)
SameMeaning == phase \notin {"compose", "read"} => Resolve([conf EXCEPT !.opts = given]) = Resolve(conf)
Untouched == touched => Valid(conf)
AllNamed == phase = "refused" => found = Errors(conf)
Refused == phase = "refused" => ~Valid(conf)
Accepted == phase \in {"running", "done"} => Valid(conf)
=============================================================================
