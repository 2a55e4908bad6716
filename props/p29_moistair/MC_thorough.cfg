SPECIFICATION Spec
CONSTANTS Ts = {24315, 25315, 26315, 27215, 27415, 27816, 28315, 28515, 28815, 29315, 29815, 30315, 30815, 31315}
  Ps = {60000, 70000, 85000, 95000, 100000, 103000}
  Rhs = {50, 100, 200, 400, 600, 800, 900, 1000}
  Vs = {0, 150, 500, 1500, 4000}
  Drop = 2500
  Lowest = 20000
INVARIANTS SatGrows WetBulbBelow WetBulbWithMoisture CoolsRising DryReturns Unsaturated Saturated WetIsWarmer BaseBracketed ParcelAgrees ChillByWind FeelsJoins FeelsGrows Emit
