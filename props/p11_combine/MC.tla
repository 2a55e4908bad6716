-------------------------------- MODULE MC ----------------------------------
(* A running result meets one field after another.                             *)
EXTENDS Core, Json, TLC
CONSTANTS N
VARIABLES op, seen, acc
Ops == {"+", "-", "*", "max", "min", "mean", "masked_add"}
Vals == {0, 1, 3, 20, Masked}
Init == op \in Ops /\ seen = <<>> /\ acc = 0
Meet == \E v \in Vals : Len(seen) < N /\ op' = op /\ seen' = Append(seen, v)
        /\ acc' = IF seen = <<>> THEN v ELSE Step1(op, acc, v)
Next == Meet
Spec == Init /\ [][Next]_<<op, seen, acc>>
(* the running result is what the definition makes of all fields so far         *)
AsDefined == Len(seen) > 0 =>
  IF op = "mean" THEN Comb("+", seen, 1) = acc ELSE Comb(op, seen, 1) = acc
(* order matters to subtraction only                                            *)
Rev == [i \in 1..Len(seen) |-> seen[Len(seen) + 1 - i]]
Symmetric == (Len(seen) > 0 /\ op # "-") => Comb(op, seen, 6) = Comb(op, Rev, 6)
(* nothing but masked_add sees through a mask, and it only where all are masked  *)
Masks == Len(seen) > 0 => LET r == Comb(op, seen, 1)
  IN (r = Masked) <=> IF op = "masked_add" THEN \A i \in 1..Len(seen) : seen[i] = Masked
                      ELSE \E i \in 1..Len(seen) : seen[i] = Masked
MeanBetween == (Len(seen) > 0 /\ Comb("mean", seen, 6) # Masked) =>
  /\ Comb("min", seen, 6) <= Comb("mean", seen, 6) /\ Comb("mean", seen, 6) <= Comb("max", seen, 6)
Emit == Len(seen) >= 2 => PrintT("CASE " \o ToJson([cell |-> [op |-> op, vs |-> seen]]))
=============================================================================
