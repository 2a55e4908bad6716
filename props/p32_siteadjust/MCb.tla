---------------------------------- MODULE MCb ---------------------------------
(* Sites with their altitude differences join the training; the slope learnt is used.    *)
EXTENDS Core, Json, TLC
CONSTANTS Diffs, Ratios, Most
VARIABLES sites
SomeDiffs == {-30, -10, 0, 20}
SomeRatios == { <<1000, 1000>>, <<800, 1000>>, <<1500, 1000>>, <<0, 700>> }
Init == sites = <<>>
Next == Len(sites) < Most /\ \E d \in Diffs, p \in Ratios : sites' = Append(sites, [f |-> p[1], t |-> p[2], d |-> d])
Spec == Init /\ [][Next]_sites
Ready(s) == Len(s) > 1 /\ Spread(s)
U == Used(sites, -1000, 1000)
Sl == Slope(U)
NoDifferenceNoChange == Ready(U) => Factor(Sl, 0) = 10000
PerfectLeftAlone == Ready(U) /\ (\A k \in 1..Len(U) : U[k].f = U[k].t) => Sl = 0 /\ \A d \in Diffs : Factor(Sl, d) = 10000
OrderOfSites == Ready(U) => Slope([k \in 1..Len(U) |-> U[Len(U) + 1 - k]]) = Sl
OppositeSides == Ready(U) => \A d \in Diffs : Abs(Sl) * Abs(d) < 15000000 => LET a == Factor(Sl, d) b == Factor(Sl, -d) IN a > 30000 \/ b > 30000 \/ Near(((a * b) \div 10), 10000000, 80000)
Units10 == Ready(U) => Near(Slope([k \in 1..Len(U) |-> [U[k] EXCEPT !.f = 2 * @]]), Sl, 2000)
TwoSitesExact == Len(U) = 2 /\ Ready(U) =>      \* the fit passes through both sites but for a common factor
   Near(LogRatio(U[1].f, U[1].t) - LogRatio(U[2].f, U[2].t), (Sl * (U[1].d - U[2].d)) \div 1000, 3)
BoundsHold == Ready(U) => \A d \in Diffs : Factor(Sl, Held(d, -10, 10)) \in {Factor(Sl, e) : e \in -10..10}
Emit == Len(sites) = Most => PrintT("CASE " \o ToJson([sites |-> sites]))
===============================================================================
