----------------------------- MODULE MtclimDay -----------------------------
(***************************************************************************)
(* The relations of Mtclim as clauses on one recorded day n of a record r: *)
(*  P, TN, TX: state (90 days) and forcing, 1e3; yday; vp (Pa, 1e3),        *)
(*  sw (1e4), pet (1e5), tskc (1e6); lat 1/1000 degree; elev 1/10 m;        *)
(*  lr 1e-7 K/m; coef, scalar 1e6; thr 1e3; cloud option.                  *)
(* s90, s30 are the sums over the trailing windows, what is the set of the *)
(* variables which are estimated; tfGiven and dewGiven replace the         *)
(* transmittance and the dew point if they are supplied (else NaN)         *)
(***************************************************************************)
EXTENDS Mtclim, Windows, TraceLib

IdxOf(yday) == Min2(yday - 1, 364)
Range(r) == [n \in 1..Len(r.TN) |-> r.TX[n] - r.TN[n]]
Rel(x, n) == Abs(x) \div n

DayClauses(r, n, s90, s30, what, tfGiven, dayGiven, dewGiven) ==
  LET a   == 90 + n
      tn  == r.TN[a] * 1000  tx == r.TX[a] * 1000  dtr == tx - tn
      tf  == TfMax(dtr, (s30 * 100) \div 3, FALSE, One)
      wet == r.P[a] > r.thr
      tfm == IF tfGiven # NaN THEN tfGiven ELSE IF wet THEN Mul(r.scalar, tf) ELSE tf
      cc  == CloudCover(r.cloud, tfm)
      pr  == PressureRatio(r.elev, r.lr)
      pet == Pet(r.sw[n] * 100, IF dayGiven # NaN THEN dayGiven ELSE DayTemp(tn, tx, r.coef), pr)
      dew == IF dewGiven # NaN THEN dewGiven ELSE Dew(r.pet[n] * 10, tn, Season(s90), dtr)
      vp  == Svp(dew)
      di  == IdxOf(r.yday[n])
      sg  == Sg(r.lat, di)  cg == Cg(r.lat, di)  hs == Acos(CosHss(sg, cg))
      clear == ClearSky(sg, cg, hs, pr, 40)
      toa == DailyToa(sg, cg, hs, di)
      sw  == Shortwave(toa, clear, r.vp[n], tfm)
      complete == IsNum(r.vp[n]) /\ IsNum(r.sw[n]) /\ IsNum(r.pet[n]) /\ IsNum(r.tskc[n])
  IN IF ~complete THEN << <<r.id, "Complete", n>> >>
     ELSE (IF "tskc" \in what THEN Fails(Near(r.tskc[n], cc, IF r.cloud = "cloud_deardorff" THEN 40 ELSE 40 + Div(40, 2 * Max2(1000, cc))),
                                         <<r.id, IF wet THEN "CloudWet" ELSE "CloudDry", n, r.tskc[n], cc, r.P[a], dtr, s30>>) ELSE << >>)
       \o (IF "pet" \in what THEN Fails(Near(r.pet[n], pet \div 10, Rel(pet \div 10, 1000) + 30), <<r.id, "Evaporation", n, r.pet[n], pet \div 10>>) ELSE << >>)
       \o (IF "vp" \in what THEN Fails(Near(r.vp[n], vp, Rel(vp, 1500) + 10), <<r.id, "DewPoint", n, r.vp[n], vp, dew, Season(s90)>>) ELSE << >>)
       \o (IF "sw" \in what /\ G(sg, cg, hs) > 3000
           THEN Fails(Near(r.sw[n], sw \div 100, Rel(sw \div 100, IF G(sg, cg, hs) > 100000 THEN 500 ELSE 50) + 3000), <<r.id, "Shortwave", n, r.sw[n], sw \div 100, toa, clear, tfm>>) ELSE << >>)

=============================================================================
