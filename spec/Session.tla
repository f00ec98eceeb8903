------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Several runs in one process.  The process holds objects: the defaults   *)
(* and labels every run starts from, the configurations the caller holds,  *)
(* and what each run keeps for itself.  Objects are referred to and may be  *)
(* shared; a run writes to the objects it holds (it completes its options, *)
(* relabels its variables, marks itself).  Whether runs influence each      *)
(* other is a matter of which objects are copied when one is set up.        *)
(*                                                                         *)
(* heap: reference -> [key -> value]                                        *)
(* Configurations may name the same input files, whose contents the caller *)
(* replaces between runs.                                                  *)
(* A configuration gives values to some of the options and units to some    *)
(* of the variables.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Confs,        \* configuration -> [opts: [some options -> value], units: [some variables -> unit]]
          Opts, Names,  \* options, variables
          Slots,        \* instances that may be alive at a time
          Copies        \* what set-up copies: subset of {"opts", "labels", "conf"};
                        \* "inputs": input files are read anew by every run
DefaultOpt(o) == 0
DefaultUnit(v) == 0
None == [st |-> "none"]

VARIABLES heap, next,   \* objects; the next reference
          glob,         \* [opts, labels]: references of the defaults
          own,          \* configuration -> reference of the caller's object
          inst,         \* slot -> None or [conf, opts, labels, st]
          memo,         \* the inputs first read from the common path, 0 at the beginning
          out           \* what has been written: << [conf, opts, labels, data] ... >>
svars == <<heap, next, glob, own, inst, memo, out>>
Val(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
(* what a run writes, given its configuration and nothing else *)
FreshOpts(c) == [o \in Opts |-> Val(Confs[c].opts, o, DefaultOpt(o))]
FreshLabels(c) == [v \in Names |-> Val(Confs[c].units, v, DefaultUnit(v))]
Fresh(c) == [conf |-> c, opts |-> FreshOpts(c), labels |-> FreshLabels(c), data |-> c]

Init == /\ heap = [r \in 1..2 |-> IF r = 1 THEN [o \in Opts |-> DefaultOpt(o)] ELSE [v \in Names |-> DefaultUnit(v)]]
                  @@ [r \in {2 + c : c \in DOMAIN Confs} |-> Confs[r - 2].opts]
        /\ next = 3 + Cardinality(DOMAIN Confs)
        /\ glob = [opts |-> 1, labels |-> 2]
        /\ own = [c \in DOMAIN Confs |-> 2 + c]
        /\ inst = [s \in Slots |-> None] /\ memo = 0 /\ out = << >>

(* the caller has put the inputs of c in place *)
Read(c) == IF "inputs" \in Copies \/ memo = 0 THEN c ELSE memo
(* a new instance: options are the defaults overlaid by the configuration,  *)
(* labels those of the process with the units asked for                     *)
Setup(s, c) ==
  LET given == heap[own[c]]
      opts == [o \in Opts |-> Val(given, o, heap[glob.opts][o])]
      labels == [v \in Names |-> Val(Confs[c].units, v, heap[glob.labels][v])]
      ro == IF "opts" \in Copies THEN next ELSE glob.opts
      rl == IF "labels" \in Copies THEN next + 1 ELSE glob.labels
  IN /\ heap' = (rl :> labels) @@ (ro :> opts) @@ heap
     /\ next' = next + 2
     /\ inst' = [inst EXCEPT ![s] = [conf |-> c, opts |-> ro, labels |-> rl, st |-> "up"]]
     /\ memo' = Read(c)
     /\ UNCHANGED <<glob, own, out>>
Alive(s) == inst[s].st # "none"
(* a run completes and marks its options: that may not reach the caller, nor
   what the same instance writes when it runs again *)
Mark(h, i) == LET h1 == [h EXCEPT ![i.opts] = ("mark" :> 9) @@ @]
              IN IF "conf" \in Copies THEN h1 ELSE [h1 EXCEPT ![own[i.conf]] = h1[i.opts]]
Run(s) == /\ Alive(s)              \* also again
          /\ out' = Append(out, [conf |-> inst[s].conf, opts |-> [o \in Opts |-> heap[inst[s].opts][o]], labels |-> heap[inst[s].labels], data |-> Read(inst[s].conf)])
          /\ memo' = Read(inst[s].conf)
          /\ heap' = Mark(heap, inst[s])
          /\ inst' = [inst EXCEPT ![s].st = "ran"] /\ UNCHANGED <<next, glob, own>>
(* a run which fails marks as well, and writes nothing that counts *)
Fail(s) == /\ Alive(s)
           /\ heap' = Mark(heap, inst[s]) /\ inst' = [inst EXCEPT ![s].st = "ran"] /\ UNCHANGED <<next, glob, own, out>>
           /\ memo' = Read(inst[s].conf)
Drop(s) == Alive(s) /\ inst' = [inst EXCEPT ![s] = None] /\ UNCHANGED <<heap, next, glob, own, memo, out>>

(* ---- what has to hold ---- *)
Isolated == \A k \in 1..Len(out) : out[k] = Fresh(out[k].conf)
Defaults == heap[glob.opts] = [o \in Opts |-> DefaultOpt(o)] /\ heap[glob.labels] = [v \in Names |-> DefaultUnit(v)]
Callers == \A c \in DOMAIN Confs : heap[own[c]] = Confs[c].opts
=============================================================================
