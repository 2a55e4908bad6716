SPECIFICATION Spec
CONSTANTS Vals <- SomeVals
  Most = 4
  Coefs = {1, 2, 3, 4}
INVARIANTS SpreadFromErrors NoChangeByDefault OrderOfMembers ShiftOfMembers EvenShares Rising NeverBelowCut ThereAndBack CutLeavesHigh Middle ScorePositive ScoreLeastAtTruth ScoreAlike Emit
CHECK_DEADLOCK FALSE
