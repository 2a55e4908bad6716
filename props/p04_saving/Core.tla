-------------------------------- MODULE Core --------------------------------
(* Saving to one path, seen from outside: the path holds nothing (0) or a      *)
(* complete version (a positive number).                                      *)
(* An operation is [kind, v]: kind "ok" (a valid save of version v), "bad" (a  *)
(* save that must be refused), "crash" (a valid save cut short somewhere),     *)
(* "load".                                                                    *)
EXTENDS Integers, Sequences, FiniteSets

(* What the path may hold after the operation.                                *)
After(held, o) == CASE o.kind = "ok" -> {o.v}
                    [] o.kind = "crash" -> {held, o.v}
                    [] o.kind \in {"bad", "load"} -> {held}

(* The metadata standards a cube has to meet to be saved.                      *)
(* c: [dtype, unknown_units, coords: <<[name, dtype, bdtype, units_ok]>>]      *)
IsFloat(d) == d \in {"float16", "float32", "float64"}
TimeRef == {"time", "forecast_reference_time", "blend_time"}
TimeInterval == {"forecast_period", "UTC_offset"}
CoordOk(c) ==
  LET ok(d) == IF c.name \in TimeRef THEN d = "int64"
               ELSE IF c.name \in TimeInterval THEN d = "int32"
               ELSE IF IsFloat(c.dtype) THEN d = "float32"
               ELSE d = c.dtype
  IN ok(c.dtype) /\ (c.bdtype = "none" \/ ok(c.bdtype))
     /\ (c.name \in TimeRef \cup TimeInterval => c.units_ok)
CubeOk(c) == /\ (IsFloat(c.dtype) => c.dtype = "float32")
             /\ ~c.unknown_units
             /\ \A i \in 1..Len(c.coords) : CoordOk(c.coords[i])
=============================================================================
