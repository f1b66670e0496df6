------------------------------- MODULE ProbSim -------------------------------
(* Arguments of calibration problems, two thirds of them admissible and half *)
(* of them with a network.                                                    *)
EXTENDS Pick
MyFields == << <<"et", {"TAUNET", "T2", "T3", "T4", "MANN", "MANN_APPROX", "CONST", "TWOTHIRD"}>>, <<"n", {1, 2, 3}>>, <<"hid", {1, 3, 10}>>, <<"nu", BOOLEAN>>, <<"sp", BOOLEAN>>,
               <<"dtype", {"f32", "f64"}>>, <<"phys", {<<1, 1, 1>>, <<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>, <<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>, <<-1, -1, 1>>}>>,
               <<"nc", {3, 4, 6, 0, 1, 2, 5, 7, -3}>>, <<"ok", {"phys", "nc", "both", "all", "all of it", "everything"}>>,
               <<"noise", {"no", "no ", "0.0", "1e-3", "0.05"}>>, <<"reg", {"0.0", "1e-3"}>> >>
MyDerive(x) == [x EXCEPT !.et = IF x.et \in {"T2", "T3", "T4"} THEN "TAUNET" ELSE x.et,
                         !.phys = IF x.ok \in {"phys", "both"} THEN x.phys ELSE <<1, 1, 1>>,
                         !.nc = IF x.ok \in {"nc", "both"} \/ x.nc \in {3, 4, 6} THEN x.nc ELSE IF x.nc > 4 THEN 6 ELSE IF x.nc > 0 THEN 4 ELSE 3]
==============================================================================
