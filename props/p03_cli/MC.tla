-------------------------------- MODULE MC ----------------------------------
(* Every command line up to NT tokens, read token by token.                   *)
EXTENDS Core, Json
CONSTANTS NT, NE
Tokens == {"[", "]", "a", "-o"}

VARIABLES toks, p
vars == <<toks, p>>
Init == toks = <<>> /\ p = P0
Next == \E t \in Tokens : Len(toks) < NT /\ toks' = Append(toks, t) /\ p' = Read(p, t)
Spec == Init /\ [][Next]_vars

Closes(k) == Cardinality({i \in 1..k : toks[i] = "]"})
Opens(k) == Cardinality({i \in 1..k : toks[i] = "["})
Balanced == /\ \A k \in 1..Len(toks) : Closes(k) <= Opens(k)
            /\ Closes(Len(toks)) = Opens(Len(toks))
AcceptsBalanced == (End(p).bad = -1) <=> Balanced
RoundTrip == Balanced => Unparse(p.cur) = toks
RunsEachOnce == Balanced => Len(Run(p.cur, <<>>)) = 1 + Opens(Len(toks))
Batch == Parse(toks) = End(p)
(* A command uses only results that are already there, each exactly once.      *)
UsedOnce == Balanced =>
  LET r == Run(p.cur, <<>>)
  IN \A n \in 1..(Len(r) - 1) :
       Cardinality({<<m, i>> \in (1..Len(r)) \X (1..NT) :
                      i <= Len(r[m]) /\ r[m][i] = "r:" \o ToString(n)}) = 1
Emit == Len(toks) <= NE => PrintT("CASE " \o ToJson([toks |-> toks]))
=============================================================================
