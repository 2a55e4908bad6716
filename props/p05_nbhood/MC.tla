-------------------------------- MODULE MC ----------------------------------
(* The way sums are made: accumulate along rows and columns (one cell at a     *)
(* time, the transitions below), then take four corners; and restrict the      *)
(* work to the smallest box around values other than an extreme one.           *)
EXTENDS Core, Json
CONSTANTS NY, NX

VARIABLES f, acc, at, r
vars == <<f, acc, at, r>>
Vals == {0, 1, 2, Masked}
Init == /\ f \in [1..NY -> [1..NX -> Vals]]
        /\ r \in {1, 2}
        /\ acc = [y \in 0..NY |-> [x \in 0..NX |-> 0]]
        /\ at = 1
Val(v) == IF v = Masked THEN 0 ELSE v
Accumulate ==
  /\ at <= NY * NX
  /\ LET y == ((at - 1) \div NX) + 1
         x == ((at - 1) % NX) + 1
     IN acc' = [acc EXCEPT ![y][x] = Val(f[y][x]) + acc[y - 1][x] + acc[y][x - 1] - acc[y - 1][x - 1]]
  /\ at' = at + 1
  /\ UNCHANGED <<f, r>>
Next == Accumulate
Spec == Init /\ [][Next]_vars

Done == at = NY * NX + 1
Box(y, x) == LET a == Max2(0, y - r - 1)  b == Max2(0, x - r - 1)
                 c == Min2(NY, y + r)     d == Min2(NX, x + r)
             IN acc[c][d] - acc[a][d] - acc[c][b] + acc[a][b]
All == (1..NY) \X (1..NX)
S(y, x) == Sums("square", FALSE, r, f, <<>>, y, x)
TableIsSum == Done => \A p \in All : Box(p[1], p[2]) = S(p[1], p[2]).v

(* The box outside which everything has the value e, widened by r.            *)
Odd(e) == {p \in All : Val(f[p[1]][p[2]]) # e}
InBox(e, p) == /\ Odd(e) # {}
               /\ p[1] >= SetMin({q[1] : q \in Odd(e)}) - r /\ p[1] <= SetMax({q[1] : q \in Odd(e)}) + r
               /\ p[2] >= SetMin({q[2] : q \in Odd(e)}) - r /\ p[2] <= SetMax({q[2] : q \in Odd(e)}) + r
OutsideBoxIsExtreme == at = 1 => \A p \in All : \A e \in {0, 1} :
   ~InBox(e, p) => S(p[1], p[2]).v = e * Sums("square", FALSE, r, [y \in 1..NY |-> [x \in 1..NX |-> 1]], <<>>, p[1], p[2]).n
MeanBetween == at = 1 => \A p \in All : \A m \in {"square", "circular"} : \A w \in {FALSE, TRUE} :
   (m = "square" => ~w) =>
   LET s == Sums(m, w, r, f, <<>>, p[1], p[2])
       V == {f[q[1]][q[2]] : q \in All} \ {Masked}
   IN s.n > 0 => s.v >= s.n * SetMin(V) /\ s.v <= s.n * SetMax(V)
ValidHasMean == at = 1 => \A p \in All :
   f[p[1]][p[2]] # Masked => Output("square", FALSE, r, FALSE, TRUE, f, <<>>, 4, p[1], p[2]) # NaN
Emit == at = 1 => PrintT("CASE " \o ToJson([f |-> f, r |-> r]))
=============================================================================
