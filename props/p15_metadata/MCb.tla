-------------------------------- MODULE MCb ---------------------------------
(* Attributes amended one after another.                                           *)
EXTENDS Core, Json, TLC
CONSTANT Len1
VARIABLES log, attrs
P(t, s) == [t |-> t, s |-> s]
Shapes == {<<P("text", "x")>>, <<P("old", "")>>, <<P("old", ""), P("text", "+")>>, <<P("text", "a "), P("old", ""), P("text", " b")>>,
           <<P("now", "")>>, <<P("old", ""), P("text", " at "), P("now", "")>>, <<P("now", ""), P("text", ": "), P("old", "")>>,
           <<P("now", ""), P("text", " to "), P("now", "")>>}
Ops == [name : {"title", "history"}, k : {"set"}, parts : Shapes] \cup [name : {"title", "history"}, k : {"remove"}, parts : {<<>>}]
Init == log = <<>> /\ attrs \in {[title |-> "T"], [title |-> "T", history |-> "h"]}
Next == Len(log) < Len1 /\ \E op \in Ops : log' = Append(log, op) /\ attrs' = Amend1(attrs, op)
Spec == Init /\ [][Next]_<<log, attrs>>
LastWord == log # <<>> => LET op == log[Len(log)] IN (op.name \in DOMAIN attrs) = (op.k = "set")
(* an amendment touches its own attribute only                                        *)
Untouched == [][LET op == log'[Len(log')] IN \A m \in {"title", "history"} \ {op.name} :
                  /\ (m \in DOMAIN attrs) = (m \in DOMAIN attrs')
                  /\ m \in DOMAIN attrs => attrs'[m] = attrs[m]]_<<log, attrs>>
Emit == log # <<>> => PrintT("CASE " \o ToJson([ops |-> log]))
=============================================================================
