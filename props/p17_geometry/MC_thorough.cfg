SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 5}
 N = 5
 StepSet = {1, 2}
 Widths = {1, 2, 3, 4}
INVARIANTS Telescope AroundOnce Directionless Plane RoundTrip Bounded AxisRoundTrip Emit
