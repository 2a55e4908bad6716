-------------------------------- MODULE MC ----------------------------------
(* A cube is cut down by one constraint after another.                          *)
EXTENDS Core, Json, TLC
CONSTANTS PtsA, PtsB, MaxC
PA == <<-20, -10, 0, 10, 25>>
PB == <<1, 2, 4>>
VARIABLES log, left
Cs == [coord : {"a"}, kind : {"eq"}, vals : {<<p>> : p \in Range1(PtsA) \cup {7}}, step : {1}]
  \cup [coord : {"a"}, kind : {"range"}, vals : {<<p, q>> : p, q \in {PtsA[1], PtsA[2], PtsA[Len(PtsA)], 5}}, step : {1, 2}]
  \cup [coord : {"a"}, kind : {"list"}, vals : {<<PtsA[1], PtsA[3]>>, <<PtsA[2], 7>>}, step : {1}]
  \cup [coord : {"b"}, kind : {"eq"}, vals : {<<p>> : p \in Range1(PtsB)}, step : {1}]
  \cup [coord : {"b"}, kind : {"range"}, vals : {<<PtsB[1], PtsB[2]>>, <<PtsB[2], 99>>}, step : {1}]
Init == log = <<>> /\ left = [a |-> PtsA, b |-> PtsB]
Sub(pts, c) == LET ix == Chosen(pts, <<c>>) IN [i \in 1..Len(ix) |-> pts[ix[i]]]
Cut == \E c \in Cs : /\ Len(log) < MaxC
                     /\ \A i \in 1..Len(log) : log[i].coord # c.coord \/ (log[i].kind = "range") # (c.kind = "range")
                     /\ log' = Append(log, c)
                     /\ left' = [left EXCEPT ![c.coord] = Sub(@, c)]
Next == Cut
Spec == Init /\ [][Next]_<<log, left>>
On(x) == SelectSeq(log, LAMBDA c : c.coord = x)
NoSteps == \A i \in 1..Len(log) : log[i].step = 1
Pts(x) == IF x = "a" THEN PtsA ELSE PtsB
(* together is the same as one after another, in any order                       *)
Together == NoSteps => \A x \in {"a", "b"} :
   LET ix == Chosen(Pts(x), On(x)) IN left[x] = [i \in 1..Len(ix) |-> Pts(x)[ix[i]]]
Ordered == \A x \in {"a", "b"} : \A i \in 1..(Len(left[x]) - 1) : left[x][i] < left[x][i + 1]
(* and only what was there                                                        *)
OnlyThere == \A x \in {"a", "b"} : Range1(left[x]) \subseteq Range1(Pts(x))
(* both ends of a range belong to it                                              *)
EndsIn == Len(log) = 1 /\ log[1].kind = "range" /\ log[1].step = 1 =>
   \A k \in 1..2 : log[1].vals[k] \in Range1(Pts(log[1].coord)) => log[1].vals[k] \in Range1(left[log[1].coord])
Emit == Len(log) >= 1 => PrintT("CASE " \o ToJson([cs |-> log]))
=============================================================================
