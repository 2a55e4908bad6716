-------------------------------- MODULE Core --------------------------------
(* One column of wind: slope a in thousandths, spread sigma and orographies in       *)
(* decimetres, roughness z in tenths of millimetres, heights in centimetres (whole   *)
(* decimetres), speeds in cm/s, wavenumbers per 1000 km, resolutions in metres.      *)
EXTENDS Fixed, Exps
Land(c) == IsNum(c.a) /\ IsNum(c.s) /\ c.a > 0 /\ c.s > 0
Rough(c) == Land(c) /\ IsNum(c.z) /\ c.z > 0
Hilly(c) == Land(c) /\ IsNum(c.pp) /\ IsNum(c.mo)
(* half the height from trough to peak, cm *)
HalfHeight(s) == RoundDiv(s * 14142, 1000)
Wave(a, s, ppres, modres) == Max2(Min2(RoundDiv(a * 22214, s), 6283185 \div ppres), 1047198 \div modres)
Near0(k, s) == Max2(0, Min2(10000, 32189 + Ln(Max2(1, RoundDiv(k * HalfHeight(s), 10000)))))
RefHeight(k, s) == Max2(100, Min2(Max2(100, RoundDiv(10000 * Near0(k, s), k)), 2 * HalfHeight(s)))
(* speed at height x from levels h (ascending) and speeds u, zero at the ground        *)
UAt(h, u, x) ==
  IF x < h[1] THEN RoundDiv(u[1] * x, h[1])
  ELSE LET i == SetMax({j \in 1..Len(h) : h[j] <= x}) IN
       IF i = Len(h) THEN u[i] ELSE u[i] + RoundDiv((u[i + 1] - u[i]) * (x - h[i]), h[i + 1] - h[i])
LnH(x) == Ln(100 * x)
LogProfile(x, ref, uref, z) == RoundDiv(uref * (LnH(x) - Ln(z)), LnH(ref) - Ln(z))
Decay(k, x) == ExpNeg(Max2(0, RoundDiv(k * (x \div 10), 10000)))
HeightGain(k, x, uk, dz) == RoundDiv(RoundDiv(uk * RoundDiv(dz * k, 1000), 10000) * Decay(k, x), 30000)
Base(c, h, u, j, k) == IF ~c.withz \/ ~Rough(c) THEN u[j]
   ELSE LET ref == RefHeight(k, c.s) IN IF h[j] < ref THEN LogProfile(h[j], ref, UAt(h, u, ref), c.z) ELSE u[j]
Gain(c, h, u, j, k) == IF ~Hilly(c) THEN 0 ELSE LET uk == UAt(h, u, 100000000 \div k) IN IF uk <= 0 THEN 0 ELSE HeightGain(k, h[j], uk, c.pp - c.mo)
Corrected(c, h, u, j, ppres, modres) ==
  IF ~Land(c) THEN u[j]
  ELSE LET k == Wave(c.a, c.s, ppres, modres) IN Max2(0, Base(c, h, u, j, k) + Gain(c, h, u, j, k))
Slack(c, h, u, j, ppres, modres) ==
  IF ~Land(c) THEN 0
  ELSE LET k == Wave(c.a, c.s, ppres, modres) IN 4 + Abs(Base(c, h, u, j, k)) \div 300 + Abs(Gain(c, h, u, j, k)) \div 150
=============================================================================
