-------------------------------- MODULE Exps --------------------------------
(* Exponentials in fixed point: ExpNeg(x) = 30000 exp(-x/1000) for x >= 0, by  *)
(* the binary expansion of x; errors stay within a few units.                  *)
EXTENDS Integers, Sequences
ExpBits == << <<8000, 10>>, <<4000, 549>>, <<2000, 4060>>, <<1000, 11036>>, <<500, 18196>>, <<250, 23364>>, <<125, 26475>>,
              <<64, 28140>>, <<32, 29055>>, <<16, 29524>>, <<8, 29761>>, <<4, 29880>>, <<2, 29940>>, <<1, 29970>> >>
RECURSIVE ExpFrom(_, _, _)
ExpFrom(x, k, acc) == IF k > Len(ExpBits) \/ acc = 0 THEN acc
                      ELSE IF x >= ExpBits[k][1] THEN ExpFrom(x - ExpBits[k][1], IF ExpBits[k][1] = 8000 \/ x - ExpBits[k][1] >= ExpBits[k][1] THEN k ELSE k + 1, (acc * ExpBits[k][2] + 15000) \div 30000)
                      ELSE ExpFrom(x, k + 1, acc)
ExpNeg(x) == ExpFrom(x, 1, 30000)
(* Natural logarithm of n/10000, times 10000 (n > 0), within a few units.       *)
RECURSIVE LnFrom(_, _)
LnFrom(x, k) == IF x >= 20000 THEN LnFrom((x + 1) \div 2, k + 1)
                ELSE IF x < 10000 THEN LnFrom(2 * x, k - 1)
                ELSE LET z == ((x - 10000) * 10000) \div (x + 10000)
                         z2 == (z * z) \div 10000
                         z3 == (z * z2) \div 10000
                         z5 == (z3 * z2) \div 10000
                         z7 == (z5 * z2) \div 10000
                     IN (k * 693147) \div 100 + 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7)
Ln(n) == LnFrom(n, 0)
(* Whole square root, n >= 0.                                                   *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtFrom(n, IF n < 1000000 THEN n ELSE 46340)
=============================================================================
