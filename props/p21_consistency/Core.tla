-------------------------------- MODULE Core --------------------------------
(* Forecasts held to a reference: by bounds made from it, or by sharing it out.  *)
EXTENDS Fixed
(* a bound: the reference times m (quarters) plus a (eighths); values in eighths  *)
(* go in, 1/32 come out                                                            *)
Bound(r, b) == IF IsNum(r) THEN b.m * r + 4 * b.a ELSE r
Fine(f) == IF IsNum(f) THEN 4 * f ELSE f
Lowers(bs) == {i \in 1..Len(bs) : bs[i].op = ">="}
Uppers(bs) == {i \in 1..Len(bs) : bs[i].op = "<="}
Contradict(r, bs) == IsNum(r) /\ \E i \in Lowers(bs) : \E j \in Uppers(bs) : Bound(r, bs[i]) > Bound(r, bs[j])
Held(f, r, bs) ==
  IF ~IsNum(f) \/ ~IsNum(r) THEN f
  ELSE LET lo == SetMax({Fine(f)} \cup {Bound(r, bs[i]) : i \in Lowers(bs)})
       IN SetMin({lo} \cup {Bound(r, bs[i]) : i \in Uppers(bs)})
(* which configurations make sense                                                  *)
Good(bs) == (Len(bs) = 1 /\ bs[1].op \in {">=", "<="}) \/ (Len(bs) = 2 /\ {bs[1].op, bs[2].op} = {">=", "<="})
(* --- sharing out: parts p[1..n] of a reference, thousandths ---                    *)
Total(p) == SumTo(p, Len(p))
Whole(p) == \A i \in 1..Len(p) : IsNum(p[i])
Share(p, i, r) == IF Total(p) = 0 THEN 0 ELSE RoundDiv(1000 * r * p[i], Total(p))
Unshared(p, r) == Whole(p) /\ IsNum(r) /\ Total(p) = 0 /\ r # 0
(* --- a tree of cubes: leaves are names, lists are sequences under "sub" ---        *)
RECURSIVE Leaves(_)
Leaves(t) == IF "leaf" \in DOMAIN t THEN <<t.leaf>>
             ELSE IF Len(t.sub) = 0 THEN <<>> ELSE Leaves(Head(t.sub)) \o Leaves([sub |-> Tail(t.sub)])
Named(s, nm) == SelectSeq(s, LAMBDA x : x = nm)
=============================================================================
