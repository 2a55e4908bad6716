SPECIFICATION Spec
CONSTANTS Vals <- MoreVals
  Most = 4
INVARIANTS NothingLearnt RemovesMeanError OrderOfDays BiasWithin InBounds PerfectLeftAlone Swapped Emit
CHECK_DEADLOCK FALSE
