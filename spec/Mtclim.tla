------------------------------- MODULE Mtclim -------------------------------
(***************************************************************************)
(* The published relations between a day's estimates: transmittance of the *)
(* clouds (Thornton and Running 1999), cloud cover, shortwave, evaporation *)
(* (Priestley-Taylor), dew point (Kimball et al. 1997).  Temperatures in C, *)
(* vapor and air pressure in kPa, evaporation in mm, shortwave in W m-2    *)
(* averaged over the whole day.                                            *)
(***************************************************************************)
EXTENDS Thermo, Sun, FiniteSets

(* clear to cloudy transmittance by temperature range and its 30 day mean  *)
Transmit(dtr, smooth) ==
  LET b == 31000 + Mul(201000, Exp(-Mul(185000, smooth)))
  IN One - Mul(900000, Exp(-Mul(b, Mul(dtr, Sqrt(dtr)))))
TfMax(dtr, smooth, wet, scalar) == LET t == Transmit(dtr, smooth) IN IF wet THEN Mul(scalar, t) ELSE t
CloudCover(cloud, tf) == IF cloud = "cloud_deardorff" THEN One - tf ELSE Sqrt(Div(One - tf, 650000))

(* saturation pressure in 1e-8 kPa below 1 C: differences need the digits  *)
SvpFine(T) == LET e == Exp(Mul(17269000, Div(T, 237300000 + T)) + 7500000)
              IN Mul(Mul(e, 33781) + Mul(e, 300) \div 1000, SvpPoly(T))
Slope(T) == IF T < 800000 THEN Div(SvpFine(T + 200000) - SvpFine(T - 200000), 400000) \div 100
            ELSE Div(Svp(T + 200000) - Svp(T - 200000), 400000)
(* elevation in 1/10 m, lapse rate in 1e-7 K/m *)
PressureRatio(elev, lr) ==
  LET t1 == One - Div(MulDiv(elev, lr, 100), 288150000)
      t2 == Div(9806650, Mul(lr, 287052400 \div 10))
  IN Exp(Mul(t2, Ln(t1)))
Latent(T) == 2502300 - Mul(2431, T)                       \* MJ/kg
Gamma(T, pr) == Div(Mul(1010, Mul(101325000, pr)), Mul(Latent(T), Eps))
DayTemp(tn, tx, coef) == LET m == (tn + tx) \div 2 IN m + Mul(tx - m, coef)
Pet(sw, T, pr) ==
  LET s == Slope(T) IN Div(Mul(Mul(78382, sw), Div(s, s + Gamma(T, pr))), Latent(T))

(* season: annual precipitation by the last 90 days in 1/100 mm             *)
Season(sum90) == Max2(8000, MulDiv(sum90, 487, 1200))       \* sum in 1/1000 mm
Dew(pet, tn, season, dtr) ==          \* factors times 10, for the digits
  LET r == MulDiv(pet, 1000, season)
      f == 10030000 - Mul(1444000, r) + Mul(1231200, Sq(r)) - Mul(327660, Cube(r))
  IN Mul((Kelvin + tn) \div 10, -1270000 + Mul(1121000, f) + Mul(6000, dtr)) - Kelvin

(* clear sky transmittance: mean over the day weighted by the radiation;   *)
(* air mass by degrees beyond 70 degrees from the zenith                   *)
AirMassTable == <<290, 305, 321, 339, 369, 382, 407, 437, 472, 512, 560, 618, 688, 777, 890, 1039, 1244, 1536, 1979, 2696, 3000>>
CosTable == <<342020, 325568, 309017, 292372, 275637, 258819, 241922, 224951, 207912, 190809, 173648,
              156434, 139173, 121869, 104528, 87156, 69756, 52336, 34899, 17452>>      \* cos 70 .. cos 89
AirMass(cza) ==
  IF cza >= 344827 THEN Div(One, cza)
  ELSE 10000 * AirMassTable[1 + Cardinality({j \in 1..20 : cza <= CosTable[j]})]
RECURSIVE TransSum(_, _, _, _, _, _, _)
TransSum(sg, cg, hss, kpr, n, m, acc) ==      \* <<weight, weighted transmittance>> in 1/1000
  IF m > n THEN acc
  ELSE LET cza == sg + Mul(cg, Cos(MulDiv(hss, 2 * m - 1, 2 * n)))
       IN TransSum(sg, cg, hss, kpr, n, m + 1,
            IF cza <= 0 THEN acc
            ELSE <<acc[1] + cza \div 10, acc[2] + Mul(cza, Exp(-Mul(kpr, AirMass(cza)))) \div 10>>)
ClearSky(sg, cg, hss, pr, n) ==
  LET s == TransSum(sg, cg, hss, Mul(139262, pr), n, 1, <<0, 0>>) IN IF s[1] <= 0 THEN 0 ELSE Div(s[2], s[1])
(* the share of the radiation at the top of the atmosphere which arrives *)
Shortwave(toa, clear, vp, tf) == Mul(Mul(toa, Max2(100, clear - Mul(61000, vp))), tf)
=============================================================================
