--------------------------------- MODULE MC ----------------------------------
(* Trees are wired node by node (each node leads to later nodes or leaves), then   *)
(* diagnostics go missing and values arrive.                                        *)
EXTENDS Core, Json, TLC
CONSTANTS N, Emitting, Leaves
VARIABLES nodes, absent, env
Name(i) == <<"n1", "n2", "n3", "n4">>[i]
Init == nodes = <<>> /\ absent = {} /\ env = <<>>
Build == /\ Len(nodes) < N
         /\ LET i == Len(nodes) + 1
                to == Leaves \cup {Name(j) : j \in (i + 1)..N}
            IN \E a \in to : \E b \in to : \E m \in {"", "t", "f"} : nodes' = Append(nodes, [kind |-> "node", t |-> a, f |-> b, miss |-> m, needs |-> <<Name(i)>>])
         /\ UNCHANGED <<absent, env>>
Arrive == /\ Len(nodes) = N /\ env = <<>>
          /\ \E g \in SUBSET {Name(i) : i \in 1..N} : absent' = g
          /\ \E h \in [1..N -> {"T", "F", "U"}] : env' = Tup(h)
          /\ UNCHANGED nodes
Next == Build \/ Arrive
Spec == Init /\ [][Next]_<<nodes, absent, env>>
T == [n \in {Name(i) : i \in 1..N} \cup Leaves |-> IF n \in Leaves THEN [kind |-> "leaf", code |-> 0, night |-> 0]
                                               ELSE nodes[CHOOSE i \in 1..N : Name(i) = n]]
E(n) == env[CHOOSE i \in 1..N : Name(i) = n]
Names == {Name(i) : i \in 1..N}
Ready == env # <<>> /\ ~Lost(T, absent)
Got == Walk(T, "n1", absent, [n \in Names |-> E(n)])
Lands == Ready => Got \in Leaves \cup {"none"}
(* passing a node over is the same as knowing its answer                            *)
Decided == Ready => Got = Walk(T, "n1", {}, [n \in Names |-> IF n \in absent THEN (IF T[n].miss = "t" THEN "T" ELSE "F") ELSE E(n)])
(* exactly one route has all its conditions met, and it ends where the walk does    *)
Met(r) == \A i \in 1..Len(r) : E(r[i][1]) = IF r[i][2] THEN "T" ELSE "F"
OneRoute == Ready => \A leaf \in Leaves : Cardinality({r \in Routes(T, "n1", absent, leaf) : Met(r)}) = IF Got = leaf THEN 1 ELSE 0
(* a node that leads the same way twice does not need its answer ... but does look   *)
Unknown == Ready /\ Got = "none" => \E i \in 1..N : env[i] = "U" /\ Name(i) \notin absent
Flip == {<<"<", ">=">>, <<">", "<=">>, <<"<=", ">">>, <<">=", "<">>}
Inverse == \A a \in 0..3 : \A b \in 0..3 : \A p \in Flip : Cmp(a, p[1], b) = ~Cmp(a, p[2], b)
Emit == Emitting /\ env # <<>> /\ (\A i \in 1..N : env[i] = "T") => PrintT("CASE " \o ToJson([nodes |-> nodes, absent |-> SetToSeq0(absent)]))
===============================================================================
