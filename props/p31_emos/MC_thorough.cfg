SPECIFICATION Spec
CONSTANTS Vals <- MoreVals
  Most = 5
  Coefs = {1, 2, 3, 4}
INVARIANTS SpreadFromErrors NoChangeByDefault OrderOfMembers ShiftOfMembers EvenShares Rising NeverBelowCut ThereAndBack CutLeavesHigh Middle ScorePositive ScoreLeastAtTruth ScoreAlike Emit
CHECK_DEADLOCK FALSE
