----------------------------- MODULE WindowSim ------------------------------
(* Random configurations of wind-field generators, with the window geometry *)
(* the specification derives for them.                                      *)
EXTENDS Pick, Window
MyFields == <<
  <<"model", {"VK", "Mann", "DRD"}>>,
  <<"lv", {<<1,1,1>>, <<2,2,2>>, <<3,2,2>>, <<2,3,1>>, <<1,2,3>>, <<3,1,2>>, <<2,1,3>>, <<4,2,1>>, <<10,1,1>>}>>,
  <<"dims", {<<"64.0","64.0","64.0">>, <<"90.0","50.0","33.0">>, <<"40.0","81.0","57.0">>, <<"120.0","20.0","45.0">>, <<"31.0","47.0","101.0">>}>>,
  <<"L", {"5.3", "11.7", "19.9"}>>,
  <<"G", {"0", "0.21", "0.63", "1.47"}>>,
  <<"blend", {0, 1, 2, 3, 7, 10, 16, 45}>>,
  <<"E", {"0.37", "3.2", "1e-9", "4e8"}>>,
  <<"zref", {"10.0", "27.5"}>>,
  <<"ustar", {"0.45", "1.3"}>>,
  <<"seed", {0, 1, 77, 2147483647}>>,
  <<"wstart", 0..6>>,
  <<"wstep", 1..6>>,
  <<"blocks", {1, 2, 3, 9}>> >>
\* what distinguishes the profile of the next block from that of the block before
Kinds == <<"z0", "zref", "uref", "type", "exp", "same", "all">>
MyDerive(c) ==
  LET few == IF c.lv # <<10,1,1>> THEN c      \* long fields are expensive
             ELSE IF c.wstart = 0 THEN [c EXCEPT !.blocks = 2] ELSE [c EXCEPT !.lv = <<1,1,5>>]
      d == IF c.model = "DRD" /\ c.G = "0" THEN [few EXCEPT !.G = "0.34"] ELSE few
  IN d @@ [walk |-> [j \in 1..8 |-> Kinds[((d.wstart + j * d.wstep) % 7) + 1]], geo |-> Geometry(d), robust |-> RobustGeometry(d)]
=============================================================================
