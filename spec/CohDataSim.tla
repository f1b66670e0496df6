----------------------------- MODULE CohDataSim ------------------------------
(* Files to load: index sets, order of the rows, missing points, layout.      *)
EXTENDS Pick
MyFields == << <<"si", {<<0>>, <<0, 1, 2, 3>>, <<1, 2, 3, 4, 5>>, <<0, 1, 2, 3, 4, 5, 6>>, <<3, 7, 8, 20, 21>>, <<10, 9, 2, 1>>, <<5, 6>>, <<0, 1, 2>>, <<2, 4, 6, 8, 10, 12, 14, 16, 18, 20>>}>>,
               <<"fi", {<<0>>, <<0, 1>>, <<1, 2, 3, 4>>, <<9, 11, 30>>, <<12, 2, 1>>}>>,
               <<"order", {"rows", "columns", "shuffled", "reversed"}>>, <<"missing", {"none", "some", "many", "values"}>>,
               <<"phys", {"rising", "falling", "mixed"}>>, <<"head", {"plain", "comments", "spaces", "swapped"}>>, <<"arg", {"str", "path"}>> >>
MyDerive(x) == x
==============================================================================
