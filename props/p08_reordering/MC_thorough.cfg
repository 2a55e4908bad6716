SPECIFICATION Spec
CONSTANTS
  NR = 3
  NP = 4
INVARIANTS DealtAll OrderFollowsRaw Characterised Emit
