---------------------------------- MODULE MCc ---------------------------------
(* A table of factors grows by lead time and cycle hour; each forecast looks one up.      *)
EXTENDS Core, Json, TLC
CONSTANTS Leads, Hours, Most
VARIABLES fps, hours, fp, h
Init == fp \in {0, 5, 6, 7, 30} /\ h \in {0, 2, 3, 23} /\ (\E a \in Leads : fps = <<a>>) /\ (\E a \in Hours : hours = <<a>>)
Next == UNCHANGED <<fp, h>> /\
  ((Len(fps) < Most /\ \E a \in Leads : a > fps[Len(fps)] /\ fps' = Append(fps, a) /\ UNCHANGED hours)
   \/ (Len(hours) < Most /\ \E a \in Hours : a > hours[Len(hours)] /\ hours' = Append(hours, a) /\ UNCHANGED fps))
Spec == Init /\ [][Next]_<<fps, hours, fp, h>>
L == LeadUsed(fps, fp)
NextLead == L \in Range1(fps) /\ (L >= fp => \A k \in 1..Len(fps) : fps[k] >= fp => L <= fps[k]) /\ (L < fp => \A k \in 1..Len(fps) : fps[k] <= L)
NearHour == \A n \in 0..2 : LET u == HourUsed(hours, h, n) IN
   (u = -1) = (\A k \in 1..Len(hours) : Apart(hours[k], h) > n) /\ (u # -1 => u \in Range1(hours) /\ \A k \in 1..Len(hours) : Apart(u, h) <= Apart(hours[k], h))
MoreLenient == HourUsed(hours, h, 1) # -1 => HourUsed(hours, h, 2) = HourUsed(hours, h, 1)
Emit == PrintT("CASE " \o ToJson([fps |-> fps, hours |-> hours, fp |-> fp, h |-> h]))
===============================================================================
