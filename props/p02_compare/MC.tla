-------------------------------- MODULE MC ----------------------------------
(* Every history of up to NE edits to one copy of a file.                     *)
EXTENDS Core, TLC, Json
CONSTANT NE

Var(ty, d, data, a) == [ty |-> ty, dims |-> d, data |-> data, attrs |-> a]
At(t, v) == [ty |-> t, val |-> v]
Sub == [attrs |-> [gatt |-> At("i4", <<1>>)], dims |-> [dimg |-> 2],
        vars |-> [varg |-> Var("f4", <<"dimg">>, <<1000, 2000>>, [gvatt |-> At("str", "m")])]]
F0 == [attrs |-> [ratt |-> At("str", "one"), history |-> At("str", "then")],
       dims |-> [dimx |-> 3, dimy |-> 1],
       vars |-> [dimx |-> Var("f4", <<"dimx">>, <<0, 1000, 2000>>, [catt |-> At("str", "m")]),
                 varf |-> Var("f4", <<"dimx">>, <<1000, NaN, -3000>>, [fatt |-> At("f4", <<NaN>>)]),
                 vari |-> Var("i4", <<>>, <<7000>>, [iatt |-> At("i4", <<1, 2>>)]),
                 vars |-> Var("str", <<"dimx">>, <<"a", "b", "c">>, [satt |-> At("f8", <<500>>)])],
       groups |-> [grpa |-> Sub]]

VARIABLES G, n, opt, edits
vars == <<G, n, opt, edits>>
Opts == {[rtol |-> 10, atol |-> 10, ignored |-> {}, excl |-> {}],
         [rtol |-> 0, atol |-> 0, ignored |-> {"history", "fatt"}, excl |-> {}],
         [rtol |-> 100, atol |-> 0, ignored |-> {"history"}, excl |-> {"varf", "dimx"}]}

Init == G = F0 /\ n = 0 /\ opt \in Opts /\ edits = {}

Ext(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

EditAttrs(A) == {[A EXCEPT ![k] = v] : k \in DOMAIN A,
                    v \in {At("str", "two"), At("i4", <<3>>), At("f4", <<3000>>)}}
                \cup {Less(A, k) : k \in DOMAIN A} \cup {Ext(A, "newatt", At("i4", <<5>>))}
EditData(v) == IF v.ty = "str" THEN {[v EXCEPT !.data[1] = "z"]}
               ELSE {[v EXCEPT !.data[i] = @ + d] : i \in 1..Len(v.data),
                         d \in IF v.ty = "i4" THEN {1000} ELSE {2, 50, 500}}
EditVar(v) == {[v EXCEPT !.attrs = a] : a \in EditAttrs(v.attrs)}
              \cup {w \in EditData(v) : \A i \in 1..Len(w.data) : v.ty = "str" \/ IsNum(w.data[i]) \/ w.data[i] = NaN}
              \cup (IF v.ty = "f4" THEN {[v EXCEPT !.ty = "f8"]} ELSE {})
              \cup (IF v.ty = "f4" THEN {[v EXCEPT !.data[1] = NaN]} ELSE {})
EditFile == {[G EXCEPT !.attrs = a] : a \in EditAttrs(G.attrs)}
   \cup UNION {{[G EXCEPT !.vars[k] = v] : v \in EditVar(G.vars[k])} : k \in DOMAIN G.vars}
   \cup {[G EXCEPT !.vars = Less(G.vars, k)] : k \in (DOMAIN G.vars) \ {"dimx"}}
   \cup {[G EXCEPT !.vars = Ext(G.vars, "varn", Var("i4", <<>>, <<1000>>, [natt |-> At("i4", <<1>>)]))]}
   \cup {[G EXCEPT !.dims[k] = @ + 1] : k \in {"dimy"}} \cup {[G EXCEPT !.dims = Ext(G.dims, "dimn", 2)]}
   \cup {[G EXCEPT !.groups = Ext(G.groups, "grpb", Sub)], [G EXCEPT !.groups = <<>>]}
   \cup (IF Dom(G.groups) = {} THEN {} ELSE
          {[G EXCEPT !.groups["grpa"].vars["varg"] = v] : v \in EditVar(G.groups["grpa"].vars["varg"])}
          \cup {[G EXCEPT !.groups["grpa"].attrs = a] : a \in EditAttrs(G.groups["grpa"].attrs)})

Next == n < NE /\ n' = n + 1 /\ G' \in EditFile /\ UNCHANGED <<opt, edits>>
Spec == Init /\ [][Next]_vars

Reflexive == Must(F0, F0, opt) = {} /\ Must(G, G, opt) = {} /\ Edge(G, G, opt) = {}
NeverIgnored == Must(F0, G, opt) \cap (opt.ignored \cup opt.excl) = {}
ExactSymmetric == opt.rtol = 0 => Must(F0, G, opt) = Must(G, F0, opt)
(* With nothing ignored and no tolerance, silence means identity.             *)
SilenceIsIdentity == LET o == [rtol |-> 0, atol |-> 0, ignored |-> {}, excl |-> {}]
                     IN Must(F0, G, o) = {} => F0 = G
Emit == (NE = 1 \/ n < 2) => PrintT("CASE " \o ToJson([f |-> F0, g |-> G, o |-> opt]))
=============================================================================
