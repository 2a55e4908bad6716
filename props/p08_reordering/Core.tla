-------------------------------- MODULE Core --------------------------------
(* Ensemble copula coupling: at each point the calibrated values are dealt to *)
(* the members so that their order follows that of the raw ensemble; members  *)
(* equal in the raw ensemble are dealt in any order.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fixed

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
(* The raw member behind output member i: members are used again in turn.     *)
RawOf(raw, n) == [i \in 1..n |-> raw[((i - 1) % Len(raw)) + 1]]
Numbers(rn, n) == IF n = Len(rn) THEN rn ELSE [i \in 1..n |-> rn[1] + i - 1]

IsDeal(out, cal) == SameBag(out, cal)
Follows(out, raw) == \A i, j \in 1..Len(out) : raw[i] < raw[j] => out[i] <= out[j]

(* Evenly spaced percentiles that split 0..100 equally may stand for members. *)
Spread(ps, sc) == LET q == {0, 100 * sc} \cup Range1(ps)
                      s == Sorted(SetToSeq0(q))
                  IN {s[i + 1] - s[i] : i \in 1..(Len(s) - 1)}
EvenlySpaced(ps, sc) == \A a, b \in Spread(ps, sc) : Abs(a - b) <= 2
=============================================================================
