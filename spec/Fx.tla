--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Fixed point arithmetic on TLC's 32 bit integers.                        *)
(*                                                                         *)
(* A real number x is represented by the integer nearest to x * 10^6, so   *)
(* -2147.48 <= x <= 2147.48.  The elementary functions are accurate to a   *)
(* few units in the last place (relative to their argument range); the     *)
(* tolerances of the specifications which use them take that into account. *)
(* A value which is missing in a recorded trace (NaN) is NaN below.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

One  == 1000000
NaN  == -2000000000          \* missing value
Huge ==  1999999999          \* saturated value, larger than can be represented
IsNum(x)  == x # NaN /\ x < Huge /\ x > -Huge
R(n)      == n * One          \* an integer as a fixed point number
Abs(x)    == IF x < 0 THEN -x ELSE x
Min2(a,b) == IF a < b THEN a ELSE b
Max2(a,b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))

RECURSIVE SeqSum(_)
SeqSum(s) == IF s = << >> THEN 0 ELSE Head(s) + SeqSum(Tail(s))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)     \* f[1]+..+f[n]
RECURSIVE SumFromTo(_, _, _)
SumFromTo(f, m, n) == IF n < m THEN 0 ELSE f[n] + SumFromTo(f, m, n - 1)

(* truncating division, symmetric in the sign *)
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

(* a * b / c for integers, without the product overflowing: a any integer,  *)
(* 0 <= b, 0 < c, b * c < 2^31 and the result in range                      *)
MulDiv(a, b, c) ==
  LET p == Abs(a)
      q == (p \div c) * b + (((p % c) * b) \div c)
  IN IF a < 0 THEN -q ELSE q

MulPos(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000
      b1 == b \div 1000  b0 == b % 1000
  IN a1 * b1 + ((a1 * b0) \div 1000) + ((a0 * b1) \div 1000)
       + (((a0 * b0) \div 1000 + ((a1 * b0) % 1000) + ((a0 * b1) % 1000)) \div 1000)
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulPos(Abs(a), Abs(b))
                                  ELSE -MulPos(Abs(a), Abs(b))

RECURSIVE DivDigits(_, _, _, _)
DivDigits(r, b, acc, n) ==
  IF n = 0 THEN acc
  ELSE DivDigits((r * 10) % b, b, acc * 10 + ((r * 10) \div b), n - 1)
DivPos(a, b) ==
  IF b > 200000000
  THEN LET aa == a \div 16  bb == b \div 16
       IN (aa \div bb) * One + DivDigits(aa % bb, bb, 0, 6)
  ELSE (a \div b) * One + DivDigits(a % b, b, 0, 6)
Div(a, b) == IF (a < 0) = (b < 0) THEN DivPos(Abs(a), Abs(b))
                                  ELSE -DivPos(Abs(a), Abs(b))

Sq(a) == Mul(a, a)
Cube(a) == Mul(a, Sq(a))

Ln2 == 693147
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* Taylor polynomial of exp in Horner form, 0 <= r < ln 2 *)
RECURSIVE ExpHorner(_, _, _)
ExpHorner(r, n, acc) ==
  IF n = 0 THEN acc ELSE ExpHorner(r, n - 1, One + Mul(r, acc) \div n)
ExpSmall(r) == ExpHorner(r, 9, One)

Exp(x) ==        \* x <= 7.66
  IF x < R(-20) THEN 0
  ELSE LET k == x \div Ln2          \* floor
           e == ExpSmall(x - k * Ln2 - (k * 181) \div 1000)   \* ln2 = .693147181
       IN IF k >= 0 THEN e * Pow2(k) ELSE (e + Pow2(-k - 1)) \div Pow2(-k)

RECURSIVE LnNorm(_, _)
LnNorm(m, k) == IF m >= 1500000 THEN LnNorm(m \div 2, k + 1)
                ELSE IF m < 750000 THEN LnNorm(m * 2, k - 1)
                ELSE <<m, k>>
Ln(x) ==          \* x > 0
  LET mk == LnNorm(x, 0)
      z  == Div(mk[1] - One, mk[1] + One)
      z2 == Sq(z)
      s  == One + Mul(z2, 333333 + Mul(z2, 200000 + Mul(z2, 142857 + Mul(z2, 111111))))
  IN 2 * Mul(z, s) + mk[2] * Ln2 + TDiv(mk[2] * 181, 1000)

Pow(x, p) == IF x <= 0 THEN 0 ELSE Exp(Mul(p, Ln(x)))
Sqrt(x) == IF x <= 0 THEN 0
           ELSE LET y == Pow(x, 500000) IN (y + Div(x, y)) \div 2   \* one Newton step

(* angles in radians *)
Pi == 3141593
TwoPi == 6283185
RECURSIVE SinHorner(_, _, _)
SinHorner(x2, n, acc) ==      \* 1 - x2/(2*3) (1 - x2/(4*5) (...))
  IF n = 0 THEN acc
  ELSE SinHorner(x2, n - 1, One - Mul(x2, acc) \div ((2 * n) * (2 * n + 1)))
RECURSIVE CosHorner(_, _, _)
CosHorner(x2, n, acc) ==
  IF n = 0 THEN acc
  ELSE CosHorner(x2, n - 1, One - Mul(x2, acc) \div ((2 * n - 1) * (2 * n)))
RedAngle(x) == LET y == x % TwoPi IN IF y > Pi THEN y - TwoPi ELSE y   \* [-pi,pi]
Sin(x) == LET y == RedAngle(x) IN Mul(y, SinHorner(Sq(y), 9, One))
Cos(x) == LET y == RedAngle(x) IN CosHorner(Sq(y), 9, One)

(* differences of numbers which are too far apart do not fit *)
Apart(x, y) == (x >= 0) # (y >= 0) /\ (x > 1000000000 \/ x < -1000000000 \/ y > 1000000000 \/ y < -1000000000)
Near(x, y, tol) == ~Apart(x, y) /\ x - y <= tol /\ y - x <= tol
=============================================================================
