------------------------------- MODULE Trace --------------------------------
EXTENDS Core, TraceKit
VARIABLES l, st, fails
(* weights of the inputs of a blend, in 1/S, inputs in ascending order           *)
Weights0(e) ==
  CASE e.method.kind = "linear" -> Linear(e.method.y0, e.method.yn, Len(e.inputs))
    [] e.method.kind = "nonlinear" ->
         LET w == NonLinear(e.method.c10, Len(e.inputs))
         IN IF e.method.inverse THEN [i \in 1..Len(w) |-> w[Len(w) + 1 - i]] ELSE w
    [] e.method.kind = "dict" -> DictWeights(e.method.models, <<e.method.at>>)[1]
Used(w) == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA k : w[k] > 0)
Clauses(s0, e) ==
  IF Has(e, "out") /\ e.out = "error" /\ e.op # "rejected" THEN {<<"completes", FALSE>>}
  ELSE CASE e.op = "mean" ->
        {<<"shape", Len(e.got) = Len(e.v)>>,
         <<"weighted_mean", Len(e.got) = Len(e.v) => \A p \in 1..Len(e.v) : MeanOk(e.got[p], e.v[p], e.w[p], 1000)>>,
         <<"metadata", e.meta>>}
    [] e.op = "percentile" ->
        {<<"ascending", \A p \in 1..Len(e.got) : \A i \in 1..(Len(e.got[p]) - 1) : e.got[p][i] <= e.got[p][i + 1] + 1>>,
         <<"mixture", Len(e.got) = Len(e.v) /\ \A p \in 1..Len(e.got) : \A i \in 1..Len(e.ps) :
              IF \A k \in 1..Len(e.v[p]) : Increasing(e.v[p][k])
              THEN AtPercentile(e.got[p][i], e.ps[i], e.v[p], e.w[p], e.ps)
              ELSE InRange(e.got[p][i], e.v[p])>>,
         <<"metadata", e.meta>>}
    [] e.op = "direction" ->
        {<<"direction", Len(e.sn) = Len(e.v) /\ \A p \in 1..Len(e.v) : DirectionOk(e.sn[p], e.cs[p], e.v[p], e.w[p])>>,
         <<"within_circle", \A p \in 1..Len(e.deg) : e.deg[p] >= 0 /\ e.deg[p] <= 36000>>,
         <<"metadata", e.meta>>}
    [] e.op = "blend" ->
        LET w == Weights0(e)
            recs == [k \in 1..Len(e.inputs) |-> e.inputs[k].rec]
        IN {<<"weighted_mean", Len(e.got) = Len(e.inputs[1].v) /\ \A p \in 1..Len(e.got) :
                 MeanOk(e.got[p], [k \in 1..Len(w) |-> e.inputs[k].v[p]], w, 1)>>,
            <<"record_of_runs", e.has_record => SameRecord(e.record, IF Len(e.inputs) = 1 THEN recs[1] ELSE Blend(recs, w), 3)>>,
            <<"models_named", e.model => Len(e.names) = Len(Used(w)) /\ Range1(e.names) = {e.labels[k] : k \in Range1(Used(w))}>>,
            <<"times", e.times_ok>>, <<"metadata", e.meta>>}
    [] e.op = "adjacent" ->
        LET w == Triangular(e.t, e.mid, e.width)
        IN {<<"weighted_mean", \A p \in 1..Len(e.v) : MeanOk(e.got[p], e.v[p], w, 100)>>,
            <<"like_central_point", e.meta>>}
    [] e.op = "input" -> {<<"input_untouched", e.same>>}
    [] e.op = "rejected" -> {<<"refuses_" \o e.why, e.out = "error">>}
    [] OTHER -> {<<"known_event", FALSE>>}
Same(s0, e) == s0
INSTANCE TraceRun WITH Judge <- Clauses, Step <- Same, St0 <- 0
=============================================================================
