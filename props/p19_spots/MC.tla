--------------------------------- MODULE MC ----------------------------------
(* A grid is surveyed cell by cell (sea, or land at some height); then a site   *)
(* is placed on it and looked for under every constraint.                       *)
EXTENDS Core, Json, TLC
CONSTANTS Ny, Nx, Kinds
VARIABLES cells, q
AllKinds == {<<0, 0>>, <<1, 30>>, <<1, 70>>}
FewKinds == {<<0, 0>>, <<1, 60>>}
Init == cells = <<>> /\ q = [site |-> <<>>]
Full == Len(cells) = Ny * Nx
Survey == ~Full /\ \E k \in Kinds : cells' = Append(cells, k) /\ UNCHANGED q
Place == Full /\ q.site = <<>> /\ UNCHANGED cells
  /\ \E x \in {-6, -1, 4, 9} : \E y \in {-3, 1, 6} : \E h \in {NONE, 40} : \E r \in {4, 11} : \E n \in {1, 2, 36} :
       q' = [site |-> <<x, y>>, h |-> h, r |-> r, n |-> n]
Next == Survey \/ Place
Spec == Init /\ [][Next]_<<cells, q>>
Done == q.site # <<>>
G == [xs |-> Tup([i \in 1..Nx |-> 5 * (i - 1)]), ys |-> Tup([i \in 1..Ny |-> 5 * (i - 1)]), ring |-> FALSE,
      land |-> Tup([y \in 1..Ny |-> Tup([x \in 1..Nx |-> cells[(y - 1) * Nx + x][1]])]),
      oro |-> Tup([y \in 1..Ny |-> Tup([x \in 1..Nx |-> cells[(y - 1) * Nx + x][2]])])]
Of(land, dz) == Choices(G, q.site, q.h, land, dz, q.r, q.n)
H == Height(G, q.site, q.h)
(* something is always chosen, whatever the constraints                            *)
Found == Done => \A land \in BOOLEAN : \A dz \in BOOLEAN : Of(land, dz) # {} /\ Of(land, dz) \subseteq Cells(G)
(* land is chosen exactly when there is land within reach                          *)
OnLand == Done => \A dz \in BOOLEAN : \A p \in Of(TRUE, dz) :
   Near2(G, q.site, TRUE, q.r) # {} => G.land[p[1]][p[2]] = 1 /\ Apart(G, p, q.site) < Sq(q.r)
(* a search for the height never ends further away in height than the nearest cell *)
Closer == Done /\ Apart(G, Plain(G, q.site), q.site) < Sq(q.r) => \A p \in Of(FALSE, TRUE) : Lift(G, p, H) <= Lift(G, Plain(G, q.site), H)
(* the nearest cell by rows and columns is the nearest cell                        *)
Nearest == Done => \A p \in Cells(G) : Apart(G, Plain(G, q.site), q.site) <= Apart(G, p, q.site)
(* one candidate leaves nothing to choose by height                                *)
OneNode == Done /\ q.n = 1 => \A p \in Of(TRUE, TRUE) : p \in ByLand(G, q.site, q.r)
Emit == Done => PrintT("CASE " \o ToJson([land |-> G.land, oro |-> G.oro, site |-> q.site, h |-> q.h, r |-> q.r, n |-> q.n]))
===============================================================================
