-------------------------------- MODULE MC ----------------------------------
(* The recursive filter as it runs: one cell at a time along each padded row, *)
(* forwards and then backwards.                                               *)
EXTENDS Core, Json
CONSTANTS N, W
VARIABLES row, coef, mask, cur, dir, at
vars == <<row, coef, mask, cur, dir, at>>
Len0 == N + 2 * W
Pad == PadSym(row, W)
CX == PadSym(MaskX(<<coef>>, IF mask = {} THEN <<>> ELSE <<[i \in 1..N |-> IF i \in mask THEN 1 ELSE 0]>>)[1], W)
Init == /\ row \in [1..N -> {0, 100000, 300000}]
        /\ coef \in [1..(N - 1) -> {0, 2, 5}]
        /\ mask \in SUBSET (1..N)
        /\ cur = PadSym(row, W)
        /\ dir = "fwd" /\ at = 2
Forward == /\ dir = "fwd"
           /\ cur' = [cur EXCEPT ![at] = Mix(CX[at - 1], cur[at], cur[at - 1])]
           /\ IF at = Len0 THEN dir' = "bwd" /\ at' = Len0 - 1 ELSE dir' = dir /\ at' = at + 1
           /\ UNCHANGED <<row, coef, mask>>
Backward == /\ dir = "bwd" /\ at >= 1
            /\ cur' = [cur EXCEPT ![at] = Mix(CX[at], cur[at], cur[at + 1])]
            /\ at' = at - 1
            /\ UNCHANGED <<row, coef, mask, dir>>
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars
Done == dir = "bwd" /\ at = 0

PassIsTheSteps == Done => cur = Pass(Pad, CX)
Bounded == \A i \in 1..Len0 : cur[i] >= SetMin(Range1(row)) /\ cur[i] <= SetMax(Range1(row))
(* A masked point neither changes nor influences others.                      *)
MaskedKept == Done => \A i \in mask : cur[i + W] = row[i]
Isolated == Done => \A i \in mask : \A v \in {0, 300000} :
   LET other == Pass(PadSym([row EXCEPT ![i] = v], W), CX)
   IN \A j \in (1..N) \ {i} : other[j + W] = cur[j + W]
SymPadMirrors == at = 2 => \A i \in 1..W : i <= N => Pad[W + 1 - i] = row[i] /\ Pad[W + N + i] = row[N + 1 - i]
Emit == (at = 2 /\ dir = "fwd") => PrintT("CASE " \o ToJson([row |-> row, coef |-> coef, mask |-> [i \in 1..N |-> IF i \in mask THEN 1 ELSE 0]]))
=============================================================================
