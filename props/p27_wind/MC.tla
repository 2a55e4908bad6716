---------------------------------- MODULE MC ----------------------------------
(* A direction plugin answering call after call: each answer is that of its own     *)
(* members alone.                                                                  *)
EXTENDS Core, Json, TLC
CONSTANTS Dirs, Members, Calls
VARIABLES hist, ans
Fields == UNION {[1..n -> Dirs] : n \in Members}
Answer(ds) == IF Cancels(ds) THEN <<0, 0>> ELSE <<SumSn(ds), SumCs(ds)>>
Init == hist = <<>> /\ ans = <<>>
Call(ds) == Len(hist) < Calls /\ hist' = Append(hist, ds) /\ ans' = Append(ans, Answer(ds))
Next == \E ds \in Fields : (IF hist = <<>> THEN TRUE ELSE ds # hist[Len(hist)]) /\ Call(ds)
Spec == Init /\ [][Next]_<<hist, ans>>
Last == hist[Len(hist)]
Turn(ds, k) == [i \in 1..Len(ds) |-> (ds[i] + k) % 16]
OwnAnswer == \A i \in 1..Len(hist) : ans[i] = Answer(hist[i])
Alone == hist # <<>> /\ Len(Last) = 1 => ans[Len(ans)] = <<Sn(Last[1]), Cs(Last[1])>>
Opposites == hist # <<>> /\ Len(Last) = 2 => (Cancels(Last) <=> (Last[1] - Last[2]) % 16 = 8)
Reversed == hist # <<>> => Answer([i \in 1..Len(Last) |-> Last[Len(Last) + 1 - i]]) = Answer(Last)
TurnsAlong == hist # <<>> => \A k \in {1, 4, 8, 13} : Cancels(Turn(Last, k)) = Cancels(Last)
QuarterTurn == hist # <<>> => SumSn(Turn(Last, 4)) = SumCs(Last) /\ SumCs(Turn(Last, 4)) = -SumSn(Last)
OwnWay == hist # <<>> /\ Len(Last) = 1 => Along(RoundDiv(Sn(Last[1]), 10), RoundDiv(Cs(Last[1]), 10), SumSn(Last), SumCs(Last))
NotOpposite == hist # <<>> /\ Len(Last) = 1 => ~Along(-RoundDiv(Sn(Last[1]), 10), -RoundDiv(Cs(Last[1]), 10), SumSn(Last), SumCs(Last))
Emit == Len(hist) = Calls => PrintT("CASE " \o ToJson([hist |-> hist]))
===============================================================================
