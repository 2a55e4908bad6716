SPECIFICATION Spec
CONSTANTS Widths = {100, 250, 500, 1000}
  Most = 5
  Rise = 10
  Top = 4200
INVARIANTS SharedOut ProperWeights HomeBandLeads OnlyNeighbours OneBandEach SeaInNone NoJumps Emit
CHECK_DEADLOCK FALSE
