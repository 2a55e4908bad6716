------------------------------ MODULE TraceKit ------------------------------
(* Shared by every Trace module: the recorded events, and total verdicts.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE_FILE)

(* Clauses are written as {<<"name", BOOLEAN>>, ...}; Fail gives the names of *)
(* those that do not hold.                                                   *)
Fail(S) == {x[1] : x \in {y \in S : ~y[2]}}

Has(e, f) == f \in DOMAIN e
=============================================================================
