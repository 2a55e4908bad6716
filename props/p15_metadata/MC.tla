-------------------------------- MODULE MC ----------------------------------
(* Every cube and every set of options, standardised again and again.            *)
EXTENDS Core, Json, TLC
CONSTANTS Times, Heights, Deep
VARIABLES start, opt, cube, n
Co(nm, k, len, dt, u, p, b) == [name |-> nm, kind |-> k, n |-> len, dtype |-> dt, units |-> u, pts |-> p, bnds |-> b]
TU == "seconds since 1970-01-01 00:00:00"
AllTimes == {Co("time", "scalar", 1, "int64", TU, <<0>>, <<>>),
             Co("time", "dim", 1, "float64", "hours since 1970-01-01 00:00:00", <<3600>>, <<0, 3600>>),
             Co("time", "dim", 2, "float64", TU, <<0, 7200>>, <<>>),
             Co("time", "scalar", 1, "int32", "minutes since 1970-01-01 00:00:00", <<600>>, <<0, 600>>)}
FewTimes == {Co("time", "dim", 2, "float64", TU, <<0, 7200>>, <<>>),
             Co("time", "dim", 1, "float64", "hours since 1970-01-01 00:00:00", <<3600>>, <<0, 3600>>)}
Periods == {<<>>, <<Co("forecast_period", "scalar", 1, "float32", "hours", <<7200>>, <<>>)>>}
AllHeights == {<<>>, <<Co("height", "scalar", 1, "float64", "m", <<150>>, <<>>)>>,
            <<Co("height", "dim", 1, "int64", "m", <<200>>, <<>>)>>,
            <<Co("height", "dim", 2, "float32", "m", <<150, 1000>>, <<>>)>>}
Reals == {<<>>, <<Co("realization", "dim", 1, "int32", "1", <<0>>, <<>>)>>, <<Co("realization", "dim", 2, "int64", "1", <<0, 100>>, <<>>)>>}
Cubes == {[name |-> "air_temperature", units |-> "K", dtype |-> d, data |-> <<27315, 28000>>, coords |-> r \o h \o <<t>> \o p,
           attrs |-> [title |-> "T", history |-> "h"], cms |-> m] :
           d \in (IF Deep THEN {"float32", "float64", "int32"} ELSE {"float64", "int32"}),
           r \in (IF Deep THEN Reals ELSE {<<>>, <<Co("realization", "dim", 1, "int32", "1", <<0>>, <<>>)>>}),
           h \in Heights, t \in Times, p \in Periods, m \in {<<>>, <<"point: time", "mean: area">>}}
Opts == [name : {"", "tas"}, units : {"", "celsius"}, remove : {<<>>, <<"height">>, <<"absent", "forecast_period">>},
         modify : {<<>>, <<[name |-> "height", v |-> 200, dtype |-> "float64", many |-> FALSE]>>,
                   <<[name |-> "time", v |-> 200, dtype |-> "int64", many |-> FALSE]>>,
                   <<[name |-> "height", v |-> 200, dtype |-> "float64", many |-> TRUE]>>,
                   <<[name |-> "absent", v |-> 200, dtype |-> "float64", many |-> FALSE]>>},
         attrs : {<<>>, <<[name |-> "title", k |-> "remove", parts |-> <<>>],
                          [name |-> "history", k |-> "set", parts |-> <<[t |-> "old", s |-> ""], [t |-> "text", s |-> "; more"]>>]>>}]
Init == start \in Cubes /\ opt \in Opts /\ cube = start /\ n = 0
Again == n < 2 /\ (n = 0 => ~ StdRefused(start, opt)) /\ n' = n + 1
         /\ cube' = Std(cube, IF n = 0 THEN opt ELSE [opt EXCEPT !.units = "", !.attrs = <<>>])
         /\ UNCHANGED <<start, opt>>
Next == Again
Spec == Init /\ [][Next]_<<start, opt, cube, n>>
(* once standard, a cube stays as it is                                             *)
Settles == [][n = 1 => cube' = cube]_<<start, opt, cube, n>>
(* what comes out keeps the mandatory standards                                      *)
Standard == n > 0 => /\ cube.dtype \notin {"float64", "float16"}
                     /\ \A i \in 1..Len(cube.coords) : LET c == cube.coords[i]
                           IN c.dtype = NeedDtype(c.name, c.dtype) /\ c.units = NeedUnits(c.name, c.units)
NoScalarDims == n > 0 => \A i \in 1..Len(cube.coords) : cube.coords[i].kind = "dim" /\ cube.coords[i].n = 1 => cube.coords[i].name = "realization"
(* time stands still                                                                  *)
Instants == n > 0 => \A i \in 1..Len(cube.coords) : cube.coords[i].name \in TimeRef \cup TimeGap =>
   \E j \in 1..Len(start.coords) : start.coords[j].name = cube.coords[i].name /\ start.coords[j].pts = cube.coords[i].pts
Emit == n = 0 => PrintT("CASE " \o ToJson([cube |-> start, o |-> opt]))
=============================================================================
