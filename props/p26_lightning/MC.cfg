SPECIFICATION Spec
CONSTANTS Guess = {0, 1000, 2500, 10000}
  Rates <- SomeRates
  Anys = {0, 20, 50, 75, 100, 400}
  Ices = {0, 400, 1000}
  Leads = {0, 45, 90, 150, 360}
INVARIANTS Chance LimitedByRain OnlyIceBeatsRain StormsCertain NeverBelowRisk2 GuessKept FadesWithLead StormsHarder Lim Emit
