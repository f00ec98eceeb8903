-------------------------------- MODULE Sun --------------------------------
(***************************************************************************)
(* The sun over a flat horizon, in fixed point (Fx): declination, sunrise  *)
(* and day length, the share of a day's energy which has arrived by any    *)
(* minute, and the radiation at the top of the atmosphere.  Latitudes in   *)
(* 1/1000 degree, i is the day of the year from 0.                         *)
(***************************************************************************)
EXTENDS Fx

LatRad(lat) == Clamp(MulDiv(lat, 174533, 10000), -1570796, 1570796)
Decl(i) == -Mul(409280, Cos(i * 17214 + 193658))
(* cosine of the zenith angle = sg + cg * cos(hour angle) *)
Sg(lat, i) == Mul(Sin(LatRad(lat)), Sin(Decl(i)))
Cg(lat, i) == Max2(0, Mul(Cos(LatRad(lat)), Cos(Decl(i))))

PolarDay(sg, cg)   == sg >= cg
PolarNight(sg, cg) == -sg >= cg
(* within the accuracy of the arithmetic it can be either *)
Doubtful(sg, cg)   == Near(Abs(sg), cg, 6)
CosHss(sg, cg) == IF PolarDay(sg, cg) THEN -One ELSE IF PolarNight(sg, cg) THEN One
                  ELSE Clamp(Div(-sg, cg), -One, One)

RECURSIVE AcosBisect(_, _, _, _)
AcosBisect(x, lo, hi, n) ==
  IF n = 0 THEN (lo + hi) \div 2
  ELSE LET m == (lo + hi) \div 2
       IN IF Cos(m) > x THEN AcosBisect(x, m, hi, n - 1) ELSE AcosBisect(x, lo, m, n - 1)
Acos(x) == IF x >= One THEN 0 ELSE IF x <= -One THEN Pi ELSE AcosBisect(x, 0, Pi, 22)
Hss(lat, i) == Acos(CosHss(Sg(lat, i), Cg(lat, i)))      \* half of the daylight, radians

(* day length in ms <-> half day in radians: 27501.9742 s per radian *)
HssOfLength(ms) == MulDiv(ms, 500, 13751)

(* integral of the cosine of the zenith angle from noon to hour angle h *)
G(sg, cg, h) == Mul(sg, h) + Mul(cg, Sin(h))
HourAngle(m) == (m - 720) * 4363 + ((m - 720) * 323) \div 1000
(* share of the day's energy before minute m *)
Arrived(sg, cg, hss, m) ==
  LET g == G(sg, cg, hss)  h == Clamp(HourAngle(m), -hss, hss)
  IN IF g <= 0 THEN 0 ELSE Clamp(Div(G(sg, cg, h) + g, 2 * g), 0, One)
(* the share may be off by s seconds of the strongest sun of the day (the
   radiation routine works in bins of 30 s) and by rounding *)
ArrivedTol(sg, cg, hss, s) ==
  LET g == G(sg, cg, hss) IN Div(MulDiv(sg + cg, (73 * s) \div 10, 100000) + 12, 2 * g)

(* W m-2, mean over the day, at the top of the atmosphere *)
Toa(i) == 1368000000 + Mul(45500000, Sin(i * 17202 + (i * 42) \div 100 + 1700000))
DailyToa(sg, cg, hss, i) == Mul(Toa(i), Div(Max2(0, G(sg, cg, hss)), Pi))
=============================================================================
