SPECIFICATION Spec
CONSTANTS Ts = {25315, 27215, 27816, 28815, 29815, 30815}
  Ps = {70000, 95000, 103000}
  Rhs = {100, 400, 800, 1000}
  Vs = {0, 150, 1500}
  Drop = 5000
  Lowest = 30000
INVARIANTS SatGrows WetBulbBelow WetBulbWithMoisture CoolsRising DryReturns Unsaturated Saturated WetIsWarmer BaseBracketed ParcelAgrees ChillByWind FeelsJoins FeelsGrows Emit
