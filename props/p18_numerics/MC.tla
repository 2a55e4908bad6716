--------------------------------- MODULE MC ----------------------------------
(* A binary field is filled cell by cell; box sums, texture and gaps follow.     *)
EXTENDS Core, Json
CONSTANTS Ny, Nx
VARIABLES cells
Init == cells = <<>>
Put == Len(cells) < Ny * Nx /\ \E v \in {0, 1} : cells' = Append(cells, v)
Next == Put
Spec == Init /\ [][Next]_cells
Full == Len(cells) = Ny * Nx
F == Tup([y \in 1..Ny |-> [x \in 1..Nx |-> cells[(y - 1) * Nx + x]]])
T == Tup([y \in 1..Ny |-> Tup(TransField(F)[y])])
Points == {<<y, x>> : y \in 1..Ny, x \in 1..Nx}
(* the corner combination of the summed-area table is the sum in the box           *)
SummedArea == Full => \A y1 \in 1..Ny : \A y2 \in y1..Ny : \A x1 \in 1..Nx : \A x2 \in x1..Nx :
   Sat(F, y2, x2) - Sat(F, y1 - 1, x2) - Sat(F, y2, x1 - 1) + Sat(F, y1 - 1, x1 - 1)
     = SumOver([p \in (y1..y2) \X (x1..x2) |-> F[p[1]][p[2]]], (y1..y2) \X (x1..x2))
(* there are never more transitions than potential ones, none inside a full field  *)
TextureBounded == Full => \A p \in Points : /\ T[p[1]][p[2]] <= 4 * F[p[1]][p[2]]
                                            /\ BoxSum(T, p[1], p[2], 1, 1, "constant") <= 4 * BoxSum(F, p[1], p[2], 1, 1, "constant")
Smooth == Full /\ (\A i \in 1..Len(cells) : cells[i] = 1) => \A p \in Points : Rough(F, T, p[1], p[2], 1, 113) = 0
(* as many transitions seen from the ones as edges between differing neighbours     *)
EdgesOnce == Full => SumSeq([y \in 1..Ny |-> SumSeq(T[y])])
   = Cardinality({e \in Points \X Points : D2(e[1], e[2]) = 1 /\ F[e[1][1]][e[1][2]] = 1 /\ F[e[2][1]][e[2][2]] = 0})
(* gaps between known points are within reach, and known points are              *)
K == {p \in Points : F[p[1]][p[2]] = 1}
ReachKnown == Full /\ Tris(K) # {} => \A p \in K : Reach(Tris(K), p)
Between == Full => LET tr == Tris(K) IN tr = {} \/ \A p \in Points : (\E a \in K : \E b \in K : a[1] = b[1] /\ a[1] = p[1] /\ a[2] < p[2] /\ p[2] < b[2]) => Reach(tr, p)
Emit == Full => PrintT("CASE " \o ToJson([f |-> F]))
===============================================================================
