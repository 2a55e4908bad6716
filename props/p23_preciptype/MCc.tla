--------------------------------- MODULE MCc ---------------------------------
(* A storm and the air it forms in, at and either side of every limit; and the     *)
(* phases at a surface between two levels.                                          *)
EXTENDS Core, Json, TLC
VARIABLES h, p
Storm == [w : {0, 50, 51, 140, 141, 300, 500, 600}, size : {0, 20, 21}, ccl : {26814, 26815, 27000}, cct : {25815, 25816, 24000},
          melt : {99, 100, 101}, orog : {100}]
Place == [a : {99, 100, 101, 150, 200, 201}, rl : {100, 150}, sl : {100, 150, 200}]
Init == h \in Storm /\ p \in {q \in Place : q.rl <= q.sl}
Next == UNCHANGED <<h, p>>
Spec == Init /\ [][Next]_<<h, p>>
H == Hail(h.w, h.size, h.ccl, h.cct, h.melt, h.orog)
InRange == H \in 0..250000
BigHailShows == h.size > 20 => H >= 50000
Prevented == (h.size <= 20 /\ (h.ccl < 26815 \/ h.cct > 25815 \/ h.melt > h.orog)) => H = 0
Stronger == H <= Hail(h.w + 10, h.size, h.ccl, h.cct, h.melt, h.orog)
Rn == IF Reaches("rain", p.a, p.rl) THEN 1 ELSE 0
Sn == IF Reaches("snow", p.a, p.sl) THEN 1 ELSE 0
Exclusive == Rn + Sn <= 1 /\ Sleet(Rn, Sn, 1) \in 0..1
Emit == PrintT("CASE " \o ToJson([h |-> h, p |-> p]))
===============================================================================
