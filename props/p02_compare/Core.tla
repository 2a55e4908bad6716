-------------------------------- MODULE Core --------------------------------
(* Comparison of two self-describing data files.  A file (or group) is        *)
(*   [attrs, dims, vars, groups]                                              *)
(* attrs:  name -> [ty, val]       dims: name -> length                       *)
(* vars:   name -> [ty, dims, data, attrs]   (data in thousandths)            *)
(* groups: name -> a group without further groups                            *)
(* The comparison has to name everything in which the files differ, and       *)
(* nothing else.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, Fixed

Dom(f) == IF f = <<>> THEN {} ELSE DOMAIN f      \* an empty JSON object may read as <<>>
SymDiff(A, B) == (A \ B) \cup (B \ A)
InBoth(f, g) == Dom(f) \cap Dom(g)

(* Names of the differing attributes, other than ignored ones.                *)
AttrDiffs(f, g, ignored) ==
  SymDiff(Dom(f) \ ignored, Dom(g) \ ignored)
  \cup {k \in InBoth(f, g) \ ignored : f[k] # g[k]}

(* "differs", "same", or "edge" when a value lies on the tolerance itself.    *)
ValueCmp(a, d, rtol, atol) ==
  IF ~IsNum(a) \/ ~IsNum(d) THEN IF a = d THEN "same" ELSE "differs"
  ELSE LET lhs == Abs(a - d) * 1000
           rhs == atol * 1000 + rtol * Abs(d)
       IN IF a = d THEN "same"
          ELSE IF lhs > rhs + rhs \div 200 THEN "differs"
          ELSE IF lhs < rhs - rhs \div 200 THEN "same" ELSE "edge"

DataCmp(u, v, rtol, atol) ==
  IF Len(u.data) # Len(v.data) THEN "differs"
  ELSE LET c == {ValueCmp(u.data[i], v.data[i], rtol, atol) : i \in 1..Len(u.data)}
       IN IF "differs" \in c THEN "differs" ELSE IF "edge" \in c THEN "edge" ELSE "same"

(* Coordinate variables have to match exactly.                               *)
IsCoord(n, F, G, excl) == \E v \in InBoth(F.vars, G.vars) \ excl :
                              \E i \in 1..Len(G.vars[v].dims) : G.vars[v].dims[i] = n

VarCmp(n, F, G, o) ==
  LET u == F.vars[n]
      v == G.vars[n]
  IN IF u.ty # v.ty \/ u.dims # v.dims THEN "differs"
     ELSE IF u.ty = "str" THEN IF u.data = v.data THEN "same" ELSE "differs"
     ELSE IF IsCoord(n, F, G, o.excl) THEN IF u.data = v.data THEN "same" ELSE "differs"
     ELSE DataCmp(u, v, o.rtol, o.atol)

(* Names that must be reported, and names that may be.                        *)
GroupMust(F, G, o) ==
  AttrDiffs(F.attrs, G.attrs, o.ignored)
  \cup (SymDiff(Dom(F.dims), Dom(G.dims)) \ o.excl)
  \cup {d \in InBoth(F.dims, G.dims) \ o.excl : F.dims[d] # G.dims[d]}
  \cup (SymDiff(Dom(F.vars), Dom(G.vars)) \ o.excl)
  \cup {v \in InBoth(F.vars, G.vars) \ o.excl : VarCmp(v, F, G, o) = "differs"}
  \cup UNION {AttrDiffs(F.vars[v].attrs, G.vars[v].attrs, o.ignored) :
                 v \in InBoth(F.vars, G.vars) \ o.excl}

GroupEdge(F, G, o) == {v \in InBoth(F.vars, G.vars) \ o.excl : VarCmp(v, F, G, o) = "edge"}

Must(F, G, o) ==
  GroupMust(F, G, o) \cup SymDiff(Dom(F.groups), Dom(G.groups))
  \cup UNION {GroupMust(F.groups[g], G.groups[g], o) : g \in InBoth(F.groups, G.groups)}

Edge(F, G, o) == GroupEdge(F, G, o)
  \cup UNION {GroupEdge(F.groups[g], G.groups[g], o) : g \in InBoth(F.groups, G.groups)}
=============================================================================
