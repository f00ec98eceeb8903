----------------------------- MODULE Emissivity -----------------------------
(***************************************************************************)
(* The published parameterizations of the emissivity of the clear and of   *)
(* the clouded sky.  vp in hPa, T in K as fixed point numbers (T may not    *)
(* exceed 2147), cloud fraction c.                                         *)
(***************************************************************************)
EXTENDS Fx

LwTypes == {"default", "tva", "anderson", "brutsaert", "satterlund", "idso", "prata"}
LwClouds == {"default", "cloud_deardorff"}
PrataW(vp, T) == 5 * Div(Mul(9300000, vp), T)
Clear(type, vp, T) ==
  CASE type \in {"default", "tva"} -> 740000 + Mul(4900, vp)
    [] type = "anderson"   -> 680000 + Mul(36000, Sqrt(vp))
    [] type = "brutsaert"  -> Mul(1240000, Exp(Mul(142857, Ln(vp) - Ln(T))))
    [] type = "satterlund" -> Mul(1080000, One - Exp(-Exp(Mul(Div(T, R(2016)), Ln(vp)))))
    [] type = "idso"       -> 700000 + Mul(MulDiv(Exp(Div(R(1500), T)), 595, 100000), vp) \div 100
    [] type = "prata"      -> LET w == PrataW(vp, T)
                              IN One - Mul(One + w, Exp(-Sqrt(1200000 + 3 * w)))
Cloudy(cloud, e, c) ==
  IF cloud = "cloud_deardorff" THEN c + Mul(One - c, e) ELSE Mul(One + Mul(170000, Sq(c)), e)
(* 5.669e-8 T^4: hundreds of K keep it in range *)
BlackBody(T) == Mul(5669000, Sq(Sq(T \div 100)))
Longwave(type, cloud, vp, T, c) == Mul(Cloudy(cloud, Clear(type, vp, T), c), BlackBody(T))
=============================================================================
