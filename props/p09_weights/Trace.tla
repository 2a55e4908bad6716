------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
AllNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Monotone(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "normalise" ->
        {<<"shares", \A g \in 1..Len(e.w) : AllNear(e.got[g], Normalised(e.w[g]), 2)>>}
    [] e.op = "linear" ->
        {<<"linear", AllNear(e.got, Linear(e.y0, e.yn, e.n), 2)>>, <<"weights_cube", e.meta>>}
    [] e.op = "nonlinear" ->
        {<<"powers", AllNear(e.got, LET w == NonLinear(e.c10, e.n)
                                   IN IF e.inverse THEN [i \in 1..e.n |-> w[e.n + 1 - i]] ELSE w, 2)>>,
         <<"weights_cube", e.meta>>}
    [] e.op = "triangular" ->
        {<<"triangle", AllNear(e.got, Triangular(e.t, e.mid, e.width), 2)>>, <<"weights_cube", e.meta>>}
    [] e.op = "dict" ->
        {<<"shape", Len(e.got) = Len(e.times)>>,
         <<"piecewise_linear", Len(e.got) = Len(e.times) =>
             LET want == DictWeights(e.models, e.times)
             IN \A k \in 1..Len(e.times) : AllNear(e.got[k], want[k], 12)>>,
         <<"sums_to_one", \A k \in 1..Len(e.got) : Near(SumSeq(e.got[k]), S, Len(e.got[k]))>>,
         <<"weights_cube", e.meta>>}
    [] e.op = "spatial" ->
        LET want == SpatialWeights(e.w, e.mask, e.nx, e.fz)
        IN {<<"shape", Len(e.got) = Len(e.w)>>,
            <<"zero_where_masked", \A k \in 1..Len(e.got) : \A p \in 1..Len(e.got[k]) : e.mask[k][p] => e.got[k][p] = 0>>,
            <<"fade_to_the_mask", \A k \in 1..Len(e.got) : AllNear(e.got[k], want[k], 40)>>,
            <<"weights_cube", e.meta>>}
    [] e.op = "unmasked" ->       \* nothing masked: the weights as given
        {<<"as_given", \A k \in 1..Len(e.got) : \A p \in 1..Len(e.got[k]) : Near(e.got[k][p], S * e.w[k], 2)>>}
    [] e.op = "input" -> {<<"input_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
