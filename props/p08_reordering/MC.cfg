SPECIFICATION Spec
CONSTANTS
  NR = 3
  NP = 3
INVARIANTS DealtAll OrderFollowsRaw Characterised Emit
