-------------------------------- MODULE MC ----------------------------------
(* The steps inside a save (check, write to a temporary file piece by piece,   *)
(* rename over the destination), with crashes anywhere, refine After.          *)
EXTENDS Core, TLC, Json
CONSTANTS NOps, NPieces

Part(v, k) == [v |-> v, k |-> k]     \* the first k pieces of version v
VARIABLES tmp, dest, pc, cur, hist, held
vars == <<tmp, dest, pc, cur, hist, held>>
None == Part(0, 0)
Init == tmp = None /\ dest = None /\ pc = "idle" /\ cur = 0 /\ hist = <<>> /\ held = 0

Op(kind, v) == [kind |-> kind, v |-> v]
Version == Len(hist) + 1
Begin(kind) == /\ pc = "idle" /\ Len(hist) < NOps
               /\ hist' = Append(hist, Op(kind, Version))
               /\ cur' = Version
               /\ pc' = IF kind \in {"ok", "crash"} THEN "open" ELSE "idle"
               /\ held' = dest.v
               /\ UNCHANGED <<tmp, dest>>
Open == pc = "open" /\ tmp' = Part(cur, 0) /\ pc' = "write" /\ UNCHANGED <<dest, cur, hist, held>>
Write == /\ pc = "write" /\ tmp.k < NPieces /\ tmp' = [tmp EXCEPT !.k = @ + 1]
         /\ UNCHANGED <<dest, pc, cur, hist, held>>
Rename == /\ pc = "write" /\ tmp.k = NPieces
          /\ dest' = tmp /\ tmp' = None /\ pc' = "idle" /\ UNCHANGED <<cur, hist, held>>
Kind == hist[Len(hist)].kind
Crash == pc # "idle" /\ Kind = "crash" /\ pc' = "idle" /\ UNCHANGED <<tmp, dest, cur, hist, held>>
Next == Begin("ok") \/ Begin("bad") \/ Begin("crash") \/ Begin("load") \/ Open \/ Write \/ Rename
        \/ Crash
Spec == Init /\ [][Next]_vars

DestComplete == dest = None \/ dest.k = NPieces
Atomic == (pc = "idle" /\ hist # <<>>) => dest.v \in After(held, hist[Len(hist)])
DuringOldOrNew == pc # "idle" => dest.v = held
Emit == (pc = "idle" /\ Len(hist) = NOps) =>
          PrintT("CASE " \o ToJson([ops |-> [i \in 1..NOps |-> hist[i].kind]]))
=============================================================================
