---------------------------------- MODULE MC ----------------------------------
(* One column corrected: first for roughness, then for height.                     *)
EXTENDS Core, Json, TLC
CONSTANTS Slopes, Spreads, Zs, Tops, Grids
VARIABLES c, g, w, step
SomeProfiles == {<<500, 700, 900, 1200, 1500>>, <<300, 300, 300, 300, 300>>, <<900, 500, 0, 100, 1000>>, <<0, 0, 0, 0, 0>>}
Hs == <<500, 1500, 5000, 15000, 110000>>
SomeZs == {NaN, 0, 1, 300, 8000}
SomeTops == {<<1000, 1000>>, <<1500, 1000>>, <<1000, 1900>>, <<NaN, 100>>, <<100, NaN>>}
SomeGrids == {<<100, 1000>>, <<500, 1000>>}
Cols == [a : Slopes, s : Spreads, z : Zs, pp : {0}, mo : {0}, withz : BOOLEAN]
U0(x) == x
Init == \E x \in Cols : \E t \in Tops : \E r \in Grids : \E u \in SomeProfiles :
          c = [x EXCEPT !.pp = t[1], !.mo = t[2]] /\ g = [res |-> r, u |-> u] /\ w = u /\ step = 0
K == Wave(c.a, c.s, g.res[1], g.res[2])
Js == 1..Len(Hs)
Roughness == step = 0 /\ w' = [j \in Js |-> IF Land(c) THEN Base(c, Hs, g.u, j, K) ELSE g.u[j]] /\ step' = 1 /\ UNCHANGED <<c, g>>
Height == step = 1 /\ w' = [j \in Js |-> IF Land(c) THEN Max2(0, w[j] + Gain(c, Hs, g.u, j, K)) ELSE w[j]] /\ step' = 2 /\ UNCHANGED <<c, g>>
Next == Roughness \/ Height
Spec == Init /\ [][Next]_<<c, g, w, step>>
SeaUntouched == ~Land(c) => w = g.u
WaveResolved == Land(c) => K <= 6283185 \div g.res[1] /\ K >= 1047198 \div g.res[2]
RefBounded == Land(c) => RefHeight(K, c.s) >= 100 /\ RefHeight(K, c.s) <= Max2(100, 2 * HalfHeight(c.s))
WithinColumn == Land(c) => 100000000 \div K < Hs[Len(Hs)] /\ RefHeight(K, c.s) < Hs[Len(Hs)]
NeverBelowZero == step = 2 => \A j \in Js : w[j] >= 0
AboveRefOnlyHeight == step = 1 /\ Land(c) => \A j \in Js : Hs[j] >= RefHeight(K, c.s) => w[j] = g.u[j]
JoinsAtRef == (Land(c) /\ Rough(c)) => LET r == RefHeight(K, c.s) IN LogProfile(r, r, UAt(Hs, g.u, r), c.z) = UAt(Hs, g.u, r)
LogGrows == step = 1 /\ Land(c) => \A i, j \in Js : (i < j /\ c.withz /\ Rough(c) /\ Hs[j] < RefHeight(K, c.s)) => w[i] <= w[j]
DecaysUpwards == Land(c) /\ Hilly(c) => \A i, j \in Js : i < j => Abs(Gain(c, Hs, g.u, i, K)) >= Abs(Gain(c, Hs, g.u, j, K))
HillsSpeedUp == step = 2 /\ Hilly(c) /\ (~c.withz \/ ~Rough(c)) => \A j \in Js : (c.pp >= c.mo => w[j] >= g.u[j]) /\ (c.pp <= c.mo => w[j] <= g.u[j])
WholeIsSteps == step = 2 => \A j \in Js : w[j] = Corrected(c, Hs, g.u, j, g.res[1], g.res[2])
Emit == step = 2 => PrintT("CASE " \o ToJson([col |-> c]))
===============================================================================
