--------------------------------- MODULE MCb ---------------------------------
(* Forecasts and truths arrive cycle by cycle at one place.                        *)
EXTENDS Core, Json, TLC
CONSTANTS T, NB
VARIABLES f, t, how
Probs == {0, 2, One \div 4, One \div 2, 3 * (One \div 4), One - 2, One, NaN}
Init == f = <<>> /\ t = <<>> /\ how \in {h \in BOOLEAN \X BOOLEAN : TRUE}
Next == Len(f) < T /\ \E p \in Probs : \E o \in {0, 1, Masked} : f' = Append(f, p) /\ t' = Append(t, o) /\ how' = how
Spec == Init /\ [][Next]_<<f, t, how>>
B(p) == BinOf(p, NB, how[1], how[2])
Bins == 1..NB
Tab(b) == Table(f, t, b, NB, how[1], how[2])
EveryOneOnce == SumSeq([b \in Bins |-> Tab(b)[3]]) = Cardinality({k \in 1..Len(f) : IsNum(f[k]) /\ IsNum(t[k])})
ObservedOnce == SumSeq([b \in Bins |-> Tab(b)[1]]) = Cardinality({k \in 1..Len(f) : IsNum(f[k]) /\ t[k] = 1})
MeanInBin == \A b \in Bins : Tab(b)[3] > 0 => B(Tab(b)[2] \div Tab(b)[3]) = b
Ordered == \A p \in Probs : \A r \in Probs : (IsNum(p) /\ IsNum(r) /\ p <= r) => B(p) <= B(r)
Ends == (how[1] => \A p \in Probs : B(p) = 1 <=> p <= Tiny) /\ (how[2] => \A p \in Probs : IsNum(p) => (B(p) = NB <=> p >= One - Tiny))
Emit == Len(f) = T => PrintT("CASE " \o ToJson([f |-> f, t |-> t, how |-> how, nb |-> NB]))
===============================================================================
