SPECIFICATION Spec
CONSTANTS Leads = {3, 6, 12}
  Hours = {0, 1, 3, 4, 22}
  Most = 2
INVARIANTS NextLead NearHour MoreLenient Emit
CHECK_DEADLOCK FALSE
