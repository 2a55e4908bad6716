--------------------------------- MODULE MC ----------------------------------
(* A field of forecast and reference values grows point by point under one or     *)
(* two bounds.                                                                      *)
EXTENDS Core, Json, TLC
CONSTANTS N, Fs, Rs, As, Ms
VARIABLES f, r, bs
FVals == {-3, 0, 5, 9, NaN}
RVals == {-2, 0, 4, NaN}
FMore == {-9, -3, 0, 1, 5, 9, NaN, Masked}
RMore == {-2, 0, 4, 5, NaN, Masked}
AVals == {-2, 0, 6}
MVals == {4, 6, 2}
Bs == [a : As, m : Ms, op : {">=", "<="}]
Init == /\ f = <<>> /\ r = <<>>
        /\ bs \in {<<b>> : b \in Bs} \cup {<<b, c>> : b \in Bs, c \in Bs}
        /\ Good(bs)
Next == Len(f) < N /\ \E x \in Fs : \E y \in Rs : f' = Append(f, x) /\ r' = Append(r, y) /\ UNCHANGED bs
Spec == Init /\ [][Next]_<<f, r, bs>>
I == {i \in 1..Len(f) : IsNum(f[i]) /\ IsNum(r[i]) /\ ~Contradict(r[i], bs)}
H(i) == Held(f[i], r[i], bs)
Within(v, i) == (\A k \in Lowers(bs) : v >= Bound(r[i], bs[k])) /\ (\A k \in Uppers(bs) : v <= Bound(r[i], bs[k]))
Obeyed == \A i \in I : Within(H(i), i)
(* nothing allowed is nearer to the forecast                                         *)
Nearest == \A i \in I : \A v \in -80..80 : Within(v, i) => Abs(v - Fine(f[i])) >= Abs(H(i) - Fine(f[i]))
LeftAlone == \A i \in I : Within(Fine(f[i]), i) => H(i) = Fine(f[i])
Swapped == Len(bs) = 2 => \A i \in I : H(i) = Held(f[i], r[i], <<bs[2], bs[1]>>)
Monotone == \A i \in I : f[i] < 9 => H(i) <= Held(f[i] + 1, r[i], bs)
(* shares are proportional and whole                                                  *)
Shares == \A a \in 0..3 : \A b \in 0..3 : \A c \in 0..3 : a + b + c > 0 =>
   LET p == <<a, b, c>> IN Abs(Share(p, 1, 7) + Share(p, 2, 7) + Share(p, 3, 7) - 7000) <= 2 /\ (a <= b => Share(p, 1, 7) <= Share(p, 2, 7))
Emit == Len(f) = N => PrintT("CASE " \o ToJson([f |-> f, r |-> r, bs |-> bs]))
===============================================================================
