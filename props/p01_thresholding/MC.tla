-------------------------------- MODULE MC ----------------------------------
(* The accumulation over an ensemble, on every small field.                   *)
EXTENDS Core, TLC, Json
CONSTANTS Vals, NS, NX
ASSUME NS \in Nat

Thr == {<<0, 0, 0>>, <<1, 1, 1>>, <<0, -2, 1>>, <<1, -1, 2>>}    \* t, lo, hi
Cmps == {">", ">=", "<", "<="}
V3 == -1..1
Pts == Vals \cup {Masked}

VARIABLES taken, acc, cfg
vars == <<taken, acc, cfg>>

Init == /\ taken = <<>>
        /\ cfg \in [thr : Thr, cmp : Cmps, r : {0, 1}, land : {<<>>, <<<<0, 1, 1>>>>}]
        /\ (cfg.r = 0 => cfg.land = <<>>)
        /\ acc = [x \in 1..NX |-> [sum |-> 0, n |-> 0]]

Take(row) == /\ Len(taken) < NS
             /\ taken' = Append(taken, <<row>>)
             /\ acc' = [x \in 1..NX |-> Contribution(acc[x], <<row>>, cfg.land, cfg.r, 1, x,
                                                     cfg.thr[1], cfg.thr[2], cfg.thr[3], cfg.cmp)]
             /\ UNCHANGED cfg

Next == \E row \in [1..NX -> Pts] : Take(row)
Spec == Init /\ [][Next]_vars

(* What a user relies on, for every reachable accumulation.                   *)
InRange == \A x \in 1..NX : acc[x].n > 0 => acc[x].sum >= 0 /\ acc[x].sum <= ONE * acc[x].n
Batch == \A x \in 1..NX :
   acc[x] = Accumulate(taken, Len(taken), cfg.land, cfg.r, 1, x, cfg.thr[1], cfg.thr[2],
                       cfg.thr[3], cfg.cmp)
MaskOnlyIfNever == \A x \in 1..NX : (acc[x].n = 0) <=> (\A k \in 1..Len(taken) :
                                                      taken[k][1][x] = Masked)
Opp(c) == CASE c = ">" -> "<=" [] c = ">=" -> "<" [] c = "<" -> ">=" [] c = "<=" -> ">"
Complement == cfg.r = 0 => \A x \in 1..NX : \A k \in 1..Len(taken) :
   taken[k][1][x] # Masked =>
     Truth(taken[k][1][x], cfg.thr[1], cfg.thr[2], cfg.thr[3], cfg.cmp)
     + Truth(taken[k][1][x], cfg.thr[1], cfg.thr[2], cfg.thr[3], Opp(cfg.cmp)) = ONE
VicinityNeverLowers == \A x \in 1..NX : acc[x].sum >=
   Accumulate(taken, Len(taken), <<>>, 0, 1, x, cfg.thr[1], cfg.thr[2], cfg.thr[3], cfg.cmp).sum
Monotone == \A v \in Vals : \A t \in Vals : \A u \in Vals : t <= u =>
   IF Above(cfg.cmp) THEN Truth(v, t, t, t, cfg.cmp) >= Truth(v, u, u, u, cfg.cmp)
   ELSE Truth(v, t, t, t, cfg.cmp) <= Truth(v, u, u, u, cfg.cmp)
Emit == Len(taken) = NS => PrintT("CASE " \o ToJson([rows |-> taken, cfg |-> cfg]))
=============================================================================
