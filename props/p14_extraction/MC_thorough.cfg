SPECIFICATION Spec
CONSTANTS PtsA <- PA
  PtsB <- PB
  MaxC = 3
INVARIANTS Together Ordered OnlyThere EndsIn Emit
