-------------------------------- MODULE MC ----------------------------------
(* Land-sea patterns on a small grid and every position of a target in it.          *)
EXTENDS Core, Json, TLC
CONSTANTS NY, NX, Lands, Pos
FewPos == {1, 4, 6, 8, 11}
AllPos == 0..16
VARIABLES land, t, type
N == NY * NX
AllLands == [1..N -> {0, 1}]
FewLands == {l \in [1..N -> {0, 1}] : Cardinality({s \in 1..N : l[s] = 1}) \in {0, 1, 2, 3, N - 1, N}}
Init == land \in Lands /\ t \in [u : Pos, v : Pos] /\ type \in {0, 1}
Next == UNCHANGED <<land, t, type>>
Spec == Init /\ [][Next]_<<land, t, type>>
D == [s \in 1..N |-> Dist2(t, s, NX) * 10]
P == [s \in 1..N |-> 200000 \div (1 + D[s])]
CC == Cells(t.u, NY) \X Cells(t.v, NX)
(* weights make a mean                                                               *)
Weights1 == \A cd \in CC : LET a == t.u - 8 * cd[1]
                               b == t.v - 8 * cd[2]
                           IN SumSeq(Bilinear(a, b)) = 64 /\ \A k \in 1..4 : SumSeq(Plane(k, a, b)) = 8
(* a plane is reproduced, whichever cell a line is taken to belong to                 *)
Affine == \A cd \in CC : BilinearAt([s \in 1..N |-> 8 * ((s - 1) \div NX) + 16 * ((s - 1) % NX)], t, cd[1], cd[2], NX, 1) = t.u + 2 * t.v
PlaneAffine == \A cd \in CC : \A k \in 1..4 :
   LET f == [s \in 1..N |-> 8 * ((s - 1) \div NX) + 16 * ((s - 1) % NX)]
   IN Mean(Plane(k, t.u - 8 * cd[1], t.v - 8 * cd[2]), Vals(f, Corners(cd[1], cd[2], NX)), 8, 1) = t.u + 2 * t.v
(* the other surface type never counts when a like one is among the nearest four       *)
Sources(cd) == NearestAlike(t, D, land, type, cd[1], cd[2], NX, 10000, 0)
OnlyAlike == \A cd \in CC : Alike(land, Nearests(D, 4, 0), type) # {} => \A s \in Sources(cd) : land[s] = type
OnlyAlikeMean == \A cd \in CC : Alike(land, Nearests(D, 4, 0), type) # {} =>
   LET f == [s \in 1..N |-> IF land[s] = type THEN 7 ELSE -900]
   IN \A x \in BilinearAlike(f, t, D, P, land, type, cd[1], cd[2], NX, 10000, 1, 0) :
         x = 7 \/ (\A s \in Range1(Corners(cd[1], cd[2], NX)) : land[s] # type /\ D[s] < 0)
(* nothing is lost                                                                       *)
SomeSource == \A cd \in CC : Sources(cd) # {}
Emit == PrintT("CASE " \o ToJson([land |-> land, t |-> t, type |-> type]))
=============================================================================
