SPECIFICATION Spec
CONSTANTS Guess = {0, 30, 1000, 2499, 2500, 6000, 10000}
  Rates <- SomeRates
  Anys = {0, 1, 20, 49, 50, 51, 75, 99, 100, 400, 1000}
  Ices = {0, 1, 400, 700, 1000}
  Leads = {0, 15, 45, 90, 149, 150, 360}
INVARIANTS Chance LimitedByRain OnlyIceBeatsRain StormsCertain NeverBelowRisk2 GuessKept FadesWithLead StormsHarder Lim Emit
