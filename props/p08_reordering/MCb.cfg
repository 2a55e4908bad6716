SPECIFICATION Spec
CONSTANTS
  NR = 2
  NP = 4
INVARIANTS DealtAll OrderFollowsRaw Characterised Emit
