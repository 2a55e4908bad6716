SPECIFICATION Spec
INVARIANTS InRange BigHailShows Prevented Stronger Exclusive Emit
