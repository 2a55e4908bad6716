------------------------------- MODULE Core ---------------------------------
(* Metadata: what standardising a cube does to its name, units, types,           *)
(* coordinates, attributes and cell methods, and the rules by which new cubes    *)
(* get their attributes and names.                                               *)
EXTENDS Fixed, FiniteSets
TimeRef == {"time", "forecast_reference_time", "blend_time"}
TimeGap == {"forecast_period", "UTC_offset"}
Floats == {"float16", "float32", "float64"}
NeedDtype(name, dtype) == IF name \in TimeRef THEN "int64" ELSE IF name \in TimeGap THEN "int32"
                          ELSE IF dtype \in Floats THEN "float32" ELSE dtype
NeedUnits(name, units) == IF name \in TimeRef THEN "seconds since 1970-01-01 00:00:00"
                          ELSE IF name \in TimeGap THEN "seconds" ELSE units
(* ---- attributes ---- *)
RECURSIVE Glue(_, _)
(* parts: <<[t |-> "text"/"old"/"now", s |-> ..]..>>                               *)
Glue(parts, old) == IF parts = <<>> THEN ""
                    ELSE (IF Head(parts).t = "old" THEN old ELSE Head(parts).s) \o Glue(Tail(parts), old)
With(attrs, n, v) == [m \in DOMAIN attrs \cup {n} |-> IF m = n THEN v ELSE attrs[m]]
Without(attrs, n) == [m \in DOMAIN attrs \ {n} |-> attrs[m]]
Amend1(attrs, op) == IF op.k = "remove" THEN Without(attrs, op.name)
                     ELSE With(attrs, op.name, Glue(op.parts, IF op.name \in DOMAIN attrs THEN attrs[op.name] ELSE ""))
RECURSIVE Amend(_, _)
Amend(attrs, ops) == IF ops = <<>> THEN attrs ELSE Amend(Amend1(attrs, Head(ops)), Tail(ops))
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : f[n] = g[n]
(* ---- standardising: cube [name, units, dtype, data, coords, attrs, cms],        *)
(* coordinate [name, kind ("dim"/"scalar"/"aux"), n, dtype, units, pts, bnds]      *)
(* data and points are in hundredths; times count seconds, whatever their units    *)
Convert(v, a, b) == IF v = NaN \/ v = Masked \/ a = b THEN v
                    ELSE IF <<a, b>> = <<"K", "celsius">> THEN v - 27315
                    ELSE IF <<a, b>> = <<"m s-1", "km h-1">> THEN RoundDiv(v * 36, 10)
                    ELSE IF <<a, b>> = <<"m", "km">> THEN RoundDiv(v, 1000) ELSE Over
Convertible(a, b) == a = b \/ <<a, b>> \in {<<"K", "celsius">>, <<"m s-1", "km h-1">>, <<"m", "km">>}
Demoted(c) == IF c.kind = "dim" /\ c.n = 1 /\ c.name # "realization" THEN [c EXCEPT !.kind = "scalar"] ELSE c
Named(cs, n) == {i \in 1..Len(cs) : cs[i].name = n}
Modified(c, mods) ==
  LET ks == {k \in 1..Len(mods) : mods[k].name = c.name}
  IN IF ks = {} THEN c ELSE LET m == mods[CHOOSE k \in ks : TRUE] IN [c EXCEPT !.pts = <<m.v>>, !.dtype = m.dtype]
Typed(c) == [c EXCEPT !.dtype = NeedDtype(c.name, c.dtype), !.units = NeedUnits(c.name, c.units)]
StdCoords(cs, o) ==
  LET a == [i \in 1..Len(cs) |-> Demoted(cs[i])]
      b == SelectSeq(a, LAMBDA c : c.name \notin Range1(o.remove))
      d == [i \in 1..Len(b) |-> Modified(b[i], o.modify)]
  IN [i \in 1..Len(d) |-> Typed(d[i])]
StdRefused(cube, o) ==
  LET b == SelectSeq([i \in 1..Len(cube.coords) |-> Demoted(cube.coords[i])], LAMBDA c : c.name \notin Range1(o.remove))
  IN \/ (o.units # "" /\ ~ Convertible(cube.units, o.units))
     \/ \E k \in 1..Len(o.modify) : \E i \in Named(b, o.modify[k].name) :
           \/ b[i].kind # "scalar" \/ o.modify[k].many \/ b[i].name \in TimeRef \cup TimeGap
StdDtype(cube, o) == IF cube.dtype \in Floats \/ (o.units # "" /\ o.units # cube.units) THEN "float32" ELSE cube.dtype
Std(cube, o) ==
  [name |-> IF o.name = "" THEN cube.name ELSE o.name,
   units |-> IF o.units = "" THEN cube.units ELSE o.units,
   dtype |-> StdDtype(cube, o),
   data |-> [i \in 1..Len(cube.data) |-> IF o.units = "" THEN cube.data[i] ELSE Convert(cube.data[i], cube.units, o.units)],
   coords |-> StdCoords(cube.coords, o),
   attrs |-> Amend(cube.attrs, o.attrs),
   cms |-> SelectSeq(cube.cms, LAMBDA m : m # "point: time")]
(* ---- the mandatory standards: what breaks them ---- *)
BadCoord(c) == c.dtype # NeedDtype(c.name, c.dtype) \/ c.units # NeedUnits(c.name, c.units)
               \/ (c.bdtype # "" /\ c.bdtype # NeedDtype(c.name, c.dtype))
Breaches(e) == {e.coords[i].name : i \in {j \in 1..Len(e.coords) : BadCoord(e.coords[j])}}
               \cup (IF e.dtype \in Floats \ {"float32"} THEN {e.name} ELSE {})
(* ---- attributes of new cubes ---- *)
Defaults == [title |-> "unknown", source |-> "IMPROVER", institution |-> "unknown"]
Mandatory == {"title", "source", "institution"}
Agreed(ms, n) == \A i \in 1..Len(ms) : n \in DOMAIN ms[i] /\ ms[i][n] = ms[1][n]
MandatoryOf(ms, id) == [n \in Mandatory \cup (IF id = "" THEN {} ELSE {id}) |->
                          IF Agreed(ms, n) THEN ms[1][n] ELSE Defaults[n]]
Merged(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
(* ---- names of probabilities ---- *)
ProbName(d, vic, thr) == "probability_of_" \o d \o vic \o thr
(* ---- cell methods [m, c, com]: comments refer to the threshold coordinate ---- *)
ToProb(cms, n) == [i \in 1..Len(cms) |-> [cms[i] EXCEPT !.com = "of " \o n]]
ToDiag(cms) == [i \in 1..Len(cms) |-> [cms[i] EXCEPT !.com = ""]]
Renamed(cms, old, new) == [i \in 1..Len(cms) |-> IF cms[i].com = "of " \o old THEN [cms[i] EXCEPT !.com = "of " \o new] ELSE cms[i]]
(* ---- nested collections: [leaf, v, kids] ---- *)
RECURSIVE Flat(_)
RECURSIVE FlatAll(_)
FlatAll(ks) == IF ks = <<>> THEN <<>> ELSE Flat(Head(ks)) \o FlatAll(Tail(ks))
Flat(t) == IF t.leaf THEN <<t.v>> ELSE FlatAll(t.kids)
=============================================================================
