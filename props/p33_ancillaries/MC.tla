---------------------------------- MODULE MC ----------------------------------
(* Bands join a rising stack; a point of the terrain climbs through them.                *)
EXTENDS Core, Json, TLC
CONSTANTS Widths, Most, Rise, Top
VARIABLES bands, h
Init == h = 0 /\ \E w \in Widths : bands = << <<0, w>> >>
Stack == h = 0 /\ Len(bands) < Most /\ \E w \in Widths : bands' = Append(bands, <<bands[Len(bands)][2], bands[Len(bands)][2] + w>>) /\ UNCHANGED h
Climb == h + Rise <= Top /\ h' = h + Rise /\ UNCHANGED bands
Next == Stack \/ Climb
Spec == Init /\ [][Next]_<<bands, h>>
n == Len(bands)
W(k) == ZoneWeight(h, bands, k)
Inside == \E k \in 1..n : InBand(h, bands[k])
SharedOut == SumTo([k \in 1..n |-> W(k)], n) = (IF Inside THEN 10000 ELSE 0)
ProperWeights == \A k \in 1..n : W(k) >= 0 /\ W(k) <= 10000
HomeBandLeads == \A k \in 1..n : InBand(h, bands[k]) => W(k) >= 5000
OnlyNeighbours == \A j, k \in 1..n : j + 1 < k => W(j) = 0 \/ W(k) = 0
OneBandEach == Cardinality({k \in 1..n : BandMask(h, 1, bands[k]) = 1}) = (IF Inside THEN 1 ELSE 0)
SeaInNone == \A k \in 1..n : BandMask(h, 0, bands[k]) = 0
NoJumps == \A k \in 1..n : Inside /\ (\E j \in 1..n : InBand(h - 1, bands[j])) => Abs(W(k) - ZoneWeight(h - 1, bands, k)) <= 10002 \div SetMin(Widths) + 2
Emit == h = 0 => PrintT("CASE " \o ToJson([bands |-> bands]))
===============================================================================
