----------------------------- MODULE UnitsTrace -----------------------------
(***************************************************************************)
(* Judges recorded output against Units.  A record is one run; vars is a    *)
(* sequence of requests: var, name, unit ("" if none), and what the file    *)
(* has under that name: dtype, label, long, std, values as decimals um, ue  *)
(* and 1e4-fold integers ux; bm, be, bx are those of a run in default units *)
(* (empty if the variable is missing in the file).                         *)
(*  names: the variables found in the file, without coordinates and time   *)
(*  ts, precision, utc; tunits, tlong, tstd: attributes of time            *)
(*  glob, want: recorded and expected global attributes                    *)
(*  raw: variable -> the forcing, 1e4-fold (daily step)                    *)
(*  rh, temp (1e4), vp3, vp6 (1e3, 1e6): sub-daily humidity, default run    *)
(***************************************************************************)
EXTENDS Units, TraceLib, Thermo
VARIABLES i, bad, cov, ev, done
vars == <<i, bad, cov, ev, done>>

Precision(p) == IF p = "f4" THEN "float32" ELSE "float64"
Values(r, x) ==
  LET u == Label(x.var, x.unit)
      f == Decimal(Factor(Default(x.var), u, r.ts))
      n == Len(x.um)
      wrong == IF IsOffset(x.var)
               THEN {k \in 1..n : ~Near(x.ux[k], x.bx[k] + (Offset(u) - Offset(Default(x.var))) \div 100, 3)}
               ELSE {k \in 1..n : LET w == DecMul(x.bm[k], x.be[k], f) IN ~DecNear(x.um[k], x.ue[k], w[1], w[2], 24)}
  IN Fails(n > 0 /\ n = Len(x.bm), <<r.id, "Steps_" \o x.var, n>>)
     \o (IF n # Len(x.bm) THEN << >> ELSE
         Fails(\A k \in 1..n : x.um[k] # NaN, <<r.id, "Missing_" \o x.var>>)
         \o Fails(wrong = {}, <<r.id, "Conversion_" \o x.var, x.unit, Cardinality(wrong)>>))
Request(r, x) ==
  IF ~\E k \in 1..Len(r.names) : r.names[k] = x.name THEN << <<r.id, "NotUnderItsName", x.var, x.name>> >>
  ELSE Fails(x.label = Label(x.var, x.unit), <<r.id, "Label", x.var, x.unit, x.label>>)
       \o Fails(x.dtype = Precision(r.precision), <<r.id, "Precision", x.var, x.dtype>>)
       \o Fails(x.long = Names[x.var][1] /\ x.std = Names[x.var][2], <<r.id, "Description", x.var, x.long, x.std>>)
       \o Values(r, x)
RawOk(r, v) == \A x \in {r.vars[k] : k \in 1..Len(r.vars)} :
                 x.var = v => \A k \in 1..Len(r.raw[v]) : k > Len(x.bx) \/ Near(x.bx[k], r.raw[v][k], 1)
Sat(r, k) == Mul(r.rh[k] * 100, Svp(r.temp[k] * 100)) \div 100
VpClauses(r) ==
  LET n == Len(r.rh)
      right == \A k \in 1..n : Near(r.vp3[k], Sat(r, k), 20 + Sat(r, k) \div 1000)
      kpa   == \A k \in 1..n : Near(r.vp6[k], Sat(r, k), 20 + Sat(r, k) \div 1000)
  IN IF right THEN << >> ELSE << <<r.id, IF kpa THEN "KnownVaporPressureKPa" ELSE "VaporPressureUnit", n>> >>
Run(r) ==
  Concat(LAMBDA k : Request(r, r.vars[k]), Len(r.vars))
  \o Fails(Len(r.names) = Len(r.vars), <<r.id, "OtherVariables", r.names>>)
  \o Fails(\A v \in DOMAIN r.raw : RawOk(r, v), <<r.id, "DefaultUnit">>)
  \o Fails(r.tunits = "minutes since 2000-01-01 00:00:00.0", <<r.id, "TimeUnits", r.tunits>>)
  \o Fails(IF r.utc THEN r.tlong = "UTC time" /\ r.tstd = "utc_time"
           ELSE r.tlong = "local time at grid location" /\ r.tstd = "local_time", <<r.id, "TimeLabel", r.utc, r.tlong, r.tstd>>)
  \o Fails(\A k \in DOMAIN r.want : k \in DOMAIN r.glob /\ r.glob[k] = r.want[k],
           <<r.id, "GlobalAttributes", {<<k, r.want[k], IF k \in DOMAIN r.glob THEN r.glob[k] ELSE "none">> :
                     k \in {j \in DOMAIN r.want : ~(j \in DOMAIN r.glob) \/ r.glob[j] # r.want[j]}}>>)
  \o VpClauses(r)

CovInit == [run |-> 0, daily |-> 0, f4 |-> 0, f8 |-> 0, utc |-> 0, local |-> 0, unsupported |-> 0, absent |-> 0, converted |-> 0, kelvin |-> 0, renamed |-> 0, swapped |-> 0]
Size(r, P(_)) == Cardinality({k \in 1..Len(r.vars) : P(r.vars[k])})
B(x) == IF x THEN 1 ELSE 0
Count(c, r) ==
  [c EXCEPT !.run = @ + 1, !.daily = @ + B(r.ts = 1440), !.f4 = @ + B(r.precision = "f4"), !.f8 = @ + B(r.precision = "f8"),
            !.utc = @ + B(r.utc), !.local = @ + B(~r.utc),
            !.unsupported = @ + Size(r, LAMBDA x : x.unit # "" /\ ~IsSupported(x.var, x.unit)),
            !.absent = @ + Size(r, LAMBDA x : x.unit = ""),
            !.converted = @ + Size(r, LAMBDA x : IsSupported(x.var, x.unit) /\ x.unit # Default(x.var)),
            !.kelvin = @ + Size(r, LAMBDA x : x.unit = "K"),
            !.renamed = @ + Size(r, LAMBDA x : x.name # x.var),
            !.swapped = @ + Size(r, LAMBDA x : x.name # x.var /\ \E k \in 1..Len(r.vars) : r.vars[k].var = x.name)]
Init == i = 1 /\ bad = << >> /\ cov = CovInit /\ ev = 0 /\ done = FALSE
Judge ==
  /\ i <= Len(T) /\ i' = i + 1 /\ done' = FALSE
  /\ LET r == T[i]
     IN IF r.outcome # "ok" THEN bad' = AddBad(bad, << <<r.id, "Outcome", r.outcome>> >>) /\ UNCHANGED <<cov, ev>>
        ELSE bad' = AddBad(bad, Run(r)) /\ cov' = Count(cov, r) /\ ev' = ev + Len(r.vars)
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), ev, bad, cov) /\ UNCHANGED <<i, bad, cov, ev>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
