------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
Cells(f) == (1..Len(f)) \X (1..Len(f[1]))
Shaped(g, f) == Len(g) = Len(f) /\ \A y \in 1..Len(g) : Len(g[y]) = Len(f[y])
Clauses(s0, e) ==
  CASE e.op = "lapse_rate" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"fitted_within_bounds", Len(e.got) = Len(e.t) /\ \A m \in 1..Len(e.t) : Shaped(e.got[m], e.t[m]) /\ \A p \in Cells(e.h) :
                 Near(e.got[m][p[1]][p[2]], Lapse(e.t[m], e.h, e.land, p[1], p[2], e.r, e.maxd, e.lo, e.hi), 4)>>,
              <<"described", e.meta>>, <<"temperature_untouched", e.same>>}
    [] e.op = "apply" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE {<<"moved_by_the_difference_in_height", Len(e.got) = Len(e.t) /\ \A m \in 1..Len(e.t) : Shaped(e.got[m], e.t[m]) /\ \A p \in Cells(e.src) :
                 Near(e.got[m][p[1]][p[2]], Moved(100 * e.t[m][p[1]][p[2]], e.dst[p[1]][p[2]] - e.src[p[1]][p[2]], e.lr[m][p[1]][p[2]]), 2)>>,
              <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "enhancement" ->
        IF e.out = "error" THEN {<<"completes", FALSE>>}
        ELSE LET P == Tup([y \in 1..Len(e.h) |-> Tup([x \in 1..Len(e.h[1]) |-> Point(e.h, e.rh, e.u, e.v, e.k, e.cell, y, x)])])
             IN {<<"uplift_and_drift", Shaped(e.got, e.h) /\ \A p \in Cells(e.h) :
                    LET x == Enhanced(P, e.u, e.v, e.cell, p[1], p[2]) IN Abs(e.got[p[1]][p[2]] - x) <= 3 + x \div 60>>,
                 <<"described", e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "enhance" ->
        {<<"enhanced", e.out = "ok" /\ Len(e.got) = Len(e.p) /\ \A m \in 1..Len(e.p) : Shaped(e.got[m], e.p[m]) /\ \A c \in Cells(e.p[m]) :
             Near(e.got[m][c[1]][c[2]], Enhance(e.p[m][c[1]][c[2]], e.oe[e.at[m]][c[1]][c[2]], e.add), 1)>>,
         <<"described", e.out = "ok" => e.meta>>, <<"inputs_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refused_" \o e.why, e.out = "error">>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
