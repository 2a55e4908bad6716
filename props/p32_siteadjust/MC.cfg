SPECIFICATION Spec
CONSTANTS Vals <- SomeVals
  Most = 3
INVARIANTS NothingLearnt RemovesMeanError OrderOfDays BiasWithin InBounds PerfectLeftAlone Swapped Emit
CHECK_DEADLOCK FALSE
