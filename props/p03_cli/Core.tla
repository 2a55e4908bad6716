-------------------------------- MODULE Core --------------------------------
(* Command lines with bracketed sub-commands.                                 *)
(* Reading is a pushdown automaton over the tokens (Read); running a command  *)
(* line is post-order: every bracketed command once, left to right, before    *)
(* the command it stands in, which receives its result as one argument.       *)
(* Trees are tagged: [k |-> "w", w |-> word] or [k |-> "c", a |-> subtrees].   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

W(w) == [k |-> "w", w |-> w]
C(a) == [k |-> "c", a |-> a]

(* Automaton state: open commands (stack), the command being read, and the    *)
(* position of the first error (0: none).                                     *)
P0 == [stack |-> <<>>, cur |-> <<>>, pos |-> 0, bad |-> -1]
Read(p, t) ==
  IF p.bad # -1 THEN p
  ELSE IF t = "[" THEN [p EXCEPT !.stack = Append(@, p.cur), !.cur = <<>>, !.pos = @ + 1]
  ELSE IF t = "]" THEN
    IF p.stack = <<>> THEN [p EXCEPT !.bad = p.pos]
    ELSE LET n == Len(p.stack)
         IN [p EXCEPT !.cur = Append(p.stack[n], C(p.cur)),
                      !.stack = SubSeq(@, 1, n - 1), !.pos = @ + 1]
  ELSE [p EXCEPT !.cur = Append(@, W(t)), !.pos = @ + 1]
End(p) == IF p.bad # -1 THEN p ELSE IF p.stack # <<>> THEN [p EXCEPT !.bad = p.pos] ELSE p

RECURSIVE ReadAll(_, _)
ReadAll(p, toks) == IF toks = <<>> THEN End(p) ELSE ReadAll(Read(p, toks[1]), Tail(toks))
Parse(toks) == ReadAll(P0, toks)

(* Writing a tree back as tokens.                                             *)
RECURSIVE Unparse(_)
Unparse(args) == IF args = <<>> THEN <<>>
  ELSE (IF args[1].k = "w" THEN <<args[1].w>> ELSE <<"[">> \o Unparse(args[1].a) \o <<"]">>)
       \o Unparse(Tail(args))

(* Running: the calls made, each with its arguments; the result of the n-th    *)
(* call is the object n.  Arguments become [s |-> word] or [r |-> call number].*)
RECURSIVE Run(_, _)
RECURSIVE RunArgs(_, _, _)
RunArgs(args, calls, done) ==
  IF args = <<>> THEN [calls |-> calls, args |-> done]
  ELSE IF args[1].k = "w" THEN RunArgs(Tail(args), calls, Append(done, "s:" \o args[1].w))
  ELSE LET sub == Run(args[1].a, calls)
       IN RunArgs(Tail(args), sub, Append(done, "r:" \o ToString(Len(sub))))
Run(args, calls) == LET r == RunArgs(args, calls, <<>>) IN Append(r.calls, r.args)

RECURSIVE Commands(_)
Commands(args) == IF args = <<>> THEN 0
  ELSE (IF args[1].k = "w" THEN 0 ELSE 1 + Commands(args[1].a)) + Commands(Tail(args))
=============================================================================
