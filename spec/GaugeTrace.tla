----------------------------- MODULE GaugeTrace -----------------------------
(***************************************************************************)
(* Judges recorded runs against Gauge: one record is one cell of one run,  *)
(* one event one local day of it.                                          *)
(*  id, outcome, check ("C05" conservation | "C06" time and shape)         *)
(*  ts, o (minutes of UTC offset, 0 without), nd, type                     *)
(*  P, tmin, pk, dur, wind, tskc: daily series    sp, sw, sc: step series  *)
(* prec scale 10^6, wind 10^4, cloud 10^5, tmin 10^3, pk and dur tenths.   *)
(***************************************************************************)
EXTENDS Gauge, TraceLib
VARIABLES i, d, bad, cov, done
vars == <<i, d, bad, cov, done>>

Canon == [x \in {"uniform", "Uniform", "UNIFORM"} |-> "uniform"]
      @@ [x \in {"triangle", "Triangle", "TRIANGLE", "tRiAnGlE"} |-> "triangle"]
      @@ [x \in {"mix", "Mix", "MIX", "mIx"} |-> "mix"]

Steps(r) == DayLen \div r.ts
NOut(r)  == r.nd * Steps(r)
At(s, k) == s[(k % Len(s)) + 1]                   \* k-th reading from 0, wrapping
RECURSIVE SumAt(_, _, _)
SumAt(s, k, n) == IF n = 0 THEN 0 ELSE At(s, k) + SumAt(s, k + 1, n - 1)

(* output minute at which local day dd begins *)
Begin(r, dd) == ((dd - 1) * DayLen - r.o) % RecLen(r.nd)
Aligned(r) == r.o % r.ts = 0

(******************************* conservation ******************************)
Complete(s) == \A k \in 1..Len(s) : IsNum(s[k])
Bounds(s, r, dd, total, tol) ==     \* the readings of a shifted day hold it
  LET b  == Begin(r, dd)
      k0 == b \div r.ts
      n  == Steps(r)
      inner == IF Aligned(r) THEN SumAt(s, k0, n) ELSE SumAt(s, k0 + 1, n - 1)
      outer == IF Aligned(r) THEN inner ELSE inner + At(s, k0) + At(s, k0 + n)
  IN inner <= total + tol /\ total <= outer + tol
DayConserved(r, dd) ==
  LET n == Steps(r)  tolP == n + 3 + r.P[dd] \div 1000000
  IN Fails(Bounds(r.sp, r, dd, r.P[dd], tolP),
           <<r.id, "DayTotal", dd, r.P[dd], SumAt(r.sp, Begin(r, dd) \div r.ts, n)>>)
  \o (IF Aligned(r) /\ r.sw # << >>
      THEN Fails(Near(SumAt(r.sw, Begin(r, dd) \div r.ts, n), n * r.wind[dd], n + 1),
                 <<r.id, "DayMeanWind", dd, n * r.wind[dd], SumAt(r.sw, Begin(r, dd) \div r.ts, n)>>)
      ELSE << >>)
  \o (IF Aligned(r)
      THEN Fails(Near(SumAt(r.sc, Begin(r, dd) \div r.ts, n), n * r.tskc[dd], n + 1),
                 <<r.id, "DayMeanCloud", dd, n * r.tskc[dd], SumAt(r.sc, Begin(r, dd) \div r.ts, n)>>)
      ELSE << >>)
(* sums of years: thousands and what is left of them *)
Wide(s, n) ==
  LET h == SumTo([k \in 1..Len(s) |-> s[k] \div 1000], Len(s))
      l == SumTo([k \in 1..Len(s) |-> s[k] % 1000], Len(s))
  IN <<(n * h) + ((n * l) \div 1000), (n * l) % 1000>>
NearWide(a, b, tol) == LET h == a[1] - b[1] IN (-1000 <= h) /\ (h <= 1000) /\ Near((h * 1000) + (a[2] - b[2]), 0, tol)
RecordConserved(r) ==
  Fails(\A k \in 1..Len(r.sp) : r.sp[k] >= 0, <<r.id, "NegativePrec", r.ts>>)
  \o (LET a == Wide(r.sp, 1)  b == Wide(r.P, 1)
      IN Fails(NearWide(a, b, Len(r.sp) + 10 + (b[1] \div 1000)), <<r.id, "RecordTotal", b[1], a[1]>>))
  \o (IF r.sw = << >> THEN << >>
      ELSE LET a == Wide(r.sw, 1)  b == Wide(r.wind, Steps(r))
           IN Fails(NearWide(a, b, Len(r.sw) + 5), <<r.id, "RecordMeanWind", b[1], a[1]>>))
  \o (LET a == Wide(r.sc, 1)  b == Wide(r.tskc, Steps(r))
      IN Fails(NearWide(a, b, Len(r.sc) + 5), <<r.id, "RecordMeanCloud", b[1], a[1]>>))

(********************************** shape **********************************)
DType(r, dd) == TypeOf(Canon[r.type], r.tmin[dd])
Part(r, p) ==       \* what piece <<day, a, b>> contributes
  IF DType(r, p[1]) = "uniform" THEN UniformPart(r.P[p[1]], p[2], p[3])
  ELSE TrianglePart(r.P[p[1]], p[2], p[3], r.pk[p[1]], r.dur[p[1]])
PartTol(r, p) ==
  IF DType(r, p[1]) = "uniform" THEN 3 + r.P[p[1]] \div 1000000
  ELSE TriangleTol(r.P[p[1]], r.ts, r.dur[p[1]])
Known(r, p) ==      \* the shape is fully determined
  DType(r, p[1]) = "uniform" \/ (Inside(r.pk[p[1]], r.dur[p[1]]) /\ r.dur[p[1]] >= 300)
StepShape(r, k) ==
  LET ps == Pieces(k * r.ts, r.ts, r.o, r.nd)
  IN IF \E j \in 1..Len(ps) : ~Known(r, ps[j]) THEN << >>
     ELSE LET want == SumTo([j \in 1..Len(ps) |-> Part(r, ps[j])], Len(ps))
              tol  == SumTo([j \in 1..Len(ps) |-> PartTol(r, ps[j])], Len(ps))
          IN Fails(Near(r.sp[k + 1], want, tol),
                   <<r.id, IF DType(r, ps[1][1]) = "uniform" THEN "UniformShape" ELSE "TriangleShape",
                     k, want, r.sp[k + 1], tol>>)
(* steps wholly outside the windows of the days they show stay dry *)
Outside(r, p) == /\ DType(r, p[1]) = "triangle"
                 /\ \/ 20 * p[3] <= 2 * r.pk[p[1]] - r.dur[p[1]] - 20
                    \/ 20 * p[2] >= 2 * r.pk[p[1]] + r.dur[p[1]] + 20
StepDry(r, k) ==
  LET ps == Pieces(k * r.ts, r.ts, r.o, r.nd)
  IN IF \A j \in 1..Len(ps) : Outside(r, ps[j])
     THEN Fails(Near(r.sp[k + 1], 0, 1), <<r.id, "DryOutsideWindow", k, r.sp[k + 1]>>) ELSE << >>
(* rising before, falling after the peak (also where midnight cuts the window) *)
RiseFall(r, dd) ==
  IF DType(r, dd) # "triangle" \/ ~Aligned(r) THEN << >>
  ELSE LET k0 == Begin(r, dd) \div r.ts
           Bad(k) ==        \* steps k and k+1 of the day, from 0
             \/ /\ 10 * (k + 2) * r.ts <= r.pk[dd]
                /\ At(r.sp, k0 + k) > At(r.sp, k0 + k + 1) + 3
             \/ /\ 10 * k * r.ts >= r.pk[dd]
                /\ At(r.sp, k0 + k + 1) > At(r.sp, k0 + k) + 3
       IN Fails(\A k \in 0..(Steps(r) - 2) : ~Bad(k), <<r.id, "RiseAndFall", dd>>)
DayShape(r, dd) ==
  RiseFall(r, dd)
  \o Concat(LAMBDA j : StepShape(r, (dd - 1) * Steps(r) + j - 1), Steps(r))
  \o Concat(LAMBDA j : StepDry(r, (dd - 1) * Steps(r) + j - 1), Steps(r))

(******************************** the machine *******************************)
Good(r) == r.outcome = "ok"
Whole(r) == /\ Len(r.sp) = NOut(r) /\ Complete(r.sp) /\ Complete(r.sc) /\ Complete(r.sw)
            /\ Len(r.sc) = NOut(r) /\ (r.sw = << >> \/ Len(r.sw) = NOut(r))

CovInit == [uniform |-> 0, triangle_inside |-> 0, triangle_cut |-> 0, mix_cold |-> 0, mix_zero |-> 0,
            wet |-> 0, shifted |-> 0, unaligned |-> 0, wind |-> 0]
B(x) == IF x THEN 1 ELSE 0
Count(c, r, dd) ==
  [c EXCEPT !.uniform = @ + B(DType(r, dd) = "uniform"),
            !.triangle_inside = @ + B(DType(r, dd) = "triangle" /\ Inside(r.pk[dd], r.dur[dd])),
            !.triangle_cut = @ + B(DType(r, dd) = "triangle" /\ ~Inside(r.pk[dd], r.dur[dd])),
            !.mix_cold = @ + B(Canon[r.type] = "mix" /\ r.tmin[dd] < 0),
            !.mix_zero = @ + B(Canon[r.type] = "mix" /\ r.tmin[dd] = 0),
            !.wet = @ + B(r.P[dd] > 0), !.shifted = @ + B(r.o # 0),
            !.unaligned = @ + B(~Aligned(r)), !.wind = @ + B(r.sw # << >>)]

Init == i = 1 /\ d = 1 /\ bad = << >> /\ cov = [n |-> 0, c |-> CovInit] /\ done = FALSE
NextDay ==
  /\ i <= Len(T) /\ done' = FALSE
  /\ LET r == T[i]
     IN IF ~Good(r) \/ ~Whole(r)
        THEN /\ bad' = AddBad(bad, << <<r.id, IF Good(r) THEN "Complete" ELSE "Outcome", r.outcome>> >>)
             /\ i' = i + 1 /\ d' = 1 /\ cov' = cov
        ELSE /\ bad' = AddBad(bad, (IF r.check = "C05" THEN DayConserved(r, d) ELSE DayShape(r, d))
                               \o (IF d = r.nd /\ r.check = "C05" THEN RecordConserved(r) ELSE << >>))
             /\ cov' = [n |-> cov.n + 1, c |-> Count(cov.c, r, d)]
             /\ IF d = r.nd THEN i' = i + 1 /\ d' = 1 ELSE i' = i /\ d' = d + 1
Finish == /\ i = Len(T) + 1 /\ ~done /\ done' = TRUE
          /\ Write(Len(T), cov.n, bad, cov.c) /\ UNCHANGED <<i, d, bad, cov>>
Next == NextDay \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
