--------------------------------- MODULE MC ----------------------------------
(* A strip of hills with a temperature each is laid out point by point.         *)
EXTENDS Core, Json, TLC
CONSTANTS N, Hs, Ts
VARIABLES pts
Heights == {0, 5, 20}
Temps == {0, 3, -3}
Init == pts = <<>>
Next == Len(pts) < N /\ \E h \in Hs : \E t \in Ts : \E sea \in {0, 1} : (sea = 1 => h = 0) /\ pts' = Append(pts, <<h, t, 1 - sea>>)
Spec == Init /\ [][Next]_pts
Done == Len(pts) = N
H == <<Tup([i \in 1..N |-> pts[i][1]])>>
T == <<Tup([i \in 1..N |-> pts[i][2]])>>
L == <<Tup([i \in 1..N |-> pts[i][3]])>>
Neg(f) == <<Tup([i \in 1..N |-> -f[1][i]])>>
R(t, h, i) == Lapse(t, h, L, 1, i, 1, 10, -100000, 100000)
(* turning temperatures or heights over turns every fitted rate over                *)
Odd == Done => \A i \in 1..N : R(Neg(T), H, i) = -R(T, H, i) \/ (R(T, H, i) = DALR /\ R(Neg(T), H, i) = DALR)
Odd2 == Done => \A i \in 1..N : R(T, Neg(H), i) = -R(T, H, i) \/ (R(T, H, i) = DALR /\ R(T, Neg(H), i) = DALR)
(* rates respect their bounds                                                        *)
InBounds == Done => \A i \in 1..N : Lapse(T, H, L, 1, i, 1, 10, DALR, 2940) \in DALR..2940
(* sea and isolated points have the dry adiabatic rate                               *)
Alone == Done => \A i \in 1..N : L[1][i] = 0 \/ Cardinality(Window(H, L, 1, i, 1, 10)) = 1 => R(T, H, i) = DALR
(* moving up and back down again through the same rate                               *)
Back2 == \A d \in {-70, -20, 0, 30, 90} : \A lr \in {-980, 0, 500} : Moved(Moved(280000, d, lr), -d, lr) = 280000
(* exponentials: decreasing, and multiplicative within the precision                 *)
Exps == \A a \in {0, 1, 7, 130, 999, 2500} : \A b \in {0, 3, 64, 1000, 3001} :
   /\ Abs(RoundDiv(ExpNeg(a) * ExpNeg(b), 30000) - ExpNeg(a + b)) <= 8
   /\ ExpNeg(a + 1) <= ExpNeg(a)
Emit == Done => PrintT("CASE " \o ToJson([h |-> H[1], t |-> T[1], land |-> L[1]]))
===============================================================================
