SPECIFICATION Spec
CONSTANTS PtsA <- PA
  PtsB <- PB
  MaxC = 2
INVARIANTS Together Ordered OnlyThere EndsIn Emit
