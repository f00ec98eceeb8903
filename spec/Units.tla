------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* What a unit means, in terms of a common one, and hence how a value in    *)
(* the default unit of a variable converts to another.                     *)
(* A rational is <<numerator, denominator>>; a decimal number is            *)
(* <<mantissa of 7 digits, exponent>>.                                     *)
(***************************************************************************)
EXTENDS Fx

Supported == [pet |-> <<"mm timestep-1", "mm h-1", "mm s-1">>, prec |-> <<"mm timestep-1", "mm h-1", "mm s-1">>,
  shortwave |-> <<"W m-2">>, longwave |-> <<"W m-2">>, t_max |-> <<"C", "K">>, t_min |-> <<"C", "K">>, temp |-> <<"C", "K">>,
  vapor_pressure |-> <<"Pa", "hPa", "kPa">>, air_pressure |-> <<"kPa", "hPa", "Pa">>, tskc |-> <<"fraction", "%">>,
  rel_humid |-> <<"%", "fraction">>, spec_humid |-> <<"g g-1">>, wind |-> <<"m s-1">>, daylength |-> <<"s">>]
Default(v) == Supported[v][1]
IsSupported(v, u) == \E k \in 1..Len(Supported[v]) : Supported[v][k] = u
Names == [pet |-> <<"potential evaporation", "water_potential_evaporation_flux">>, prec |-> <<"precipitation", "precipitation_flux">>,
  shortwave |-> <<"shortwave radiation", "surface_downwelling_shortwave_flux">>, longwave |-> <<"longwave radiation", "surface_downwelling_longwave_flux">>,
  t_max |-> <<"maximum daily air temperature", "daily_maximum_air_temperature">>, t_min |-> <<"minimum daily air temperature", "daily_minimum_air_temperature">>,
  temp |-> <<"air temperature", "air_temperature">>, vapor_pressure |-> <<"vapor pressure", "vapor_pressure">>,
  air_pressure |-> <<"air pressure", "air_pressure">>, tskc |-> <<"cloud fraction", "cloud_fraction">>, rel_humid |-> <<"relative humidity", "relative_humidity">>,
  spec_humid |-> <<"specific humidity", "specific_humidity">>, wind |-> <<"wind speed", "wind_speed">>, daylength |-> <<"daylength", "length of day">>]

(* the label of a request u ("" if none was made) *)
Label(v, u) == IF IsSupported(v, u) THEN u ELSE Default(v)

(* one unit in terms of mm/s, Pa, 1: all but the temperatures are multiples *)
Meaning(u, ts) ==
  CASE u = "mm timestep-1" -> <<1, 60 * ts>> [] u = "mm h-1" -> <<1, 3600>> [] u = "mm s-1" -> <<1, 1>>
    [] u = "Pa" -> <<1, 1>> [] u = "hPa" -> <<100, 1>> [] u = "kPa" -> <<1000, 1>>
    [] u = "fraction" -> <<1, 1>> [] u = "%" -> <<1, 100>>
    [] OTHER -> <<1, 1>>
Offset(u) == IF u = "K" THEN 273150000 ELSE 0            \* Fx
IsOffset(v) == v \in {"t_max", "t_min", "temp"}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>
RatDiv(x, y) == LET a == Reduced(x[1], y[1])  b == Reduced(y[2], x[2]) IN Reduced(a[1] * b[1], a[2] * b[2])
RatMul(x, y) == RatDiv(x, <<y[2], y[1]>>)
(* multiply a value in unit u by this to get it in unit w *)
Factor(u, w, ts) == RatDiv(Meaning(u, ts), Meaning(w, ts))

(* decimal numbers *)
RECURSIVE NormRat(_, _, _)
NormRat(n, d, e) == IF n < d THEN NormRat(n * 10, d, e - 1)
                    ELSE IF n >= 10 * d THEN NormRat(n, d * 10, e + 1)
                    ELSE <<DivPos(n, d), e - 6>>
Decimal(r) == NormRat(r[1], r[2], 0)
DecMul(m, e, f) ==           \* (m, e) times the decimal f
  LET p == Mul(m, f[1])
  IN IF Abs(p) >= 10000000 THEN <<TDiv(p, 10), e + f[2] + 7>> ELSE <<p, e + f[2] + 6>>
DecNear(m1, e1, m2, e2, tol) ==
  \/ m1 = 0 /\ m2 = 0
  \/ e1 = e2 /\ Near(m1, m2, tol)
  \/ e1 = e2 + 1 /\ Near(m1 * 10, m2, 10 * tol)
  \/ e2 = e1 + 1 /\ Near(m2 * 10, m1, 10 * tol)
=============================================================================
