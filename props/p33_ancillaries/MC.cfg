SPECIFICATION Spec
CONSTANTS Widths = {100, 300, 1000}
  Most = 3
  Rise = 25
  Top = 2100
INVARIANTS SharedOut ProperWeights HomeBandLeads OnlyNeighbours OneBandEach SeaInNone NoJumps Emit
CHECK_DEADLOCK FALSE
