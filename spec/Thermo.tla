------------------------------- MODULE Thermo -------------------------------
(***************************************************************************)
(* Moist air: saturation, humidity and pressure, in fixed point (Fx).      *)
(* Temperatures in C, vapor and air pressure in kPa.                       *)
(***************************************************************************)
EXTENDS Fx

Kelvin == 273150000
Eps    == 621964

(* saturation vapor pressure; exp(x + 4) keeps the digits in the cold *)
SvpPoly(T) == IF T >= 0 THEN One ELSE One + Mul(9720, T) + Mul(4200, Sq(T \div 10))
Svp(T) == LET e == Exp(Mul(17269000, Div(T, 237300000 + T)) + R(4))
          IN Mul(Mul(e, 11186) + Mul(e, 830) \div 1000, SvpPoly(T))

(* elevation in 1/10 m, lapse rate in 1e-7 K/m *)
ColumnTemp(T, elev, lr) == Kelvin + T - MulDiv(elev, lr, 200)
AirPressure(T, elev, lr) ==
  Mul(101325000, Exp(-Div(MulDiv(elev, 341695, 100), ColumnTemp(T, elev, lr))))
(* percent *)
RelHum(vp, sat) == IF vp >= sat THEN R(100) ELSE Min2(R(100), Div(100 * vp, sat))
(* 1e-8 g/g *)
SpecHum(vp, ap) == Div(100 * Mul(Eps, vp), ap - vp + Mul(Eps, vp))
=============================================================================
