-------------------------------- MODULE Demo --------------------------------
(***************************************************************************)
(* The collations the starbow program offers: the demo of the README.      *)
(***************************************************************************)
Meas(m, p) == [m |-> m, p |-> p]

DemoStores ==
  << [name |-> "country", keys |-> <<"country">>, rows |-> <<"count">>,
      measures |-> << [f |-> "height", ms |-> <<Meas("mean", 0), Meas("sum", 0), Meas("var", 0), Meas("max", 0), Meas("min", 0)>>],
                      [f |-> "iata", ms |-> <<Meas("uniquecount", 10)>>] >>],
     [name |-> "tz", keys |-> <<"tz">>, rows |-> <<"count">>,
      measures |-> << [f |-> "country", ms |-> <<Meas("uniquecount", 8)>>],
                      [f |-> "height", ms |-> <<Meas("uniquecount", 8)>>] >>] >>
=============================================================================
