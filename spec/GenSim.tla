------------------------------- MODULE GenSim --------------------------------
(* Arguments of wind-field generators; a good third of them admissible.       *)
EXTENDS Pick
MyFields == << <<"m", {"DRD", "VK", "Mann", "mann", "vk", "", "NN", "Kaimal"}>>, <<"missing", SUBSET {"length", "time", "energy"}>>, <<"path", {"file", "pathobj", "none", "absent"}>>,
               <<"nd", {3, 2, 4}>>, <<"lf", BOOLEAN>>, <<"nl", {3, 2, 4}>>, <<"ok", {"yes", "shape", "indeed", "no"}>>, <<"blend", {0, 1, 2, 5}>>, <<"ints", BOOLEAN>>, <<"ts", {"0.3", "1.0", "0.0"}>> >>
Good(x) == LET m == IF x.m \in {"DRD", "VK", "Mann"} THEN x.m ELSE IF x.m \in {"mann", "vk"} THEN "Mann" ELSE IF x.m = "" THEN "VK" ELSE "DRD" IN
           [x EXCEPT !.m = m, !.missing = IF m = "DRD" THEN x.missing ELSE {}, !.nd = 3, !.nl = 3, !.path = IF m = "DRD" /\ x.path \notin {"file", "pathobj"} THEN "file" ELSE x.path]
MyDerive(x) == IF x.ok \in {"yes", "indeed"} THEN Good(x) ELSE IF x.ok = "shape" THEN [x EXCEPT !.nd = 3, !.nl = 3] ELSE x
==============================================================================
