------------------------------- MODULE LFSim --------------------------------
(* Random 2D+3D configurations for C12: 3D domains inside, wider and longer *)
(* than the low-frequency domain; calls as a sequence of block counts.      *)
EXTENDS Pick, Window
MyFields == <<
  <<"model", {"VK", "Mann"}>>,
  <<"lv", {<<1,1,1>>, <<2,2,1>>, <<2,3,1>>, <<3,2,2>>, <<1,3,1>>}>>,
  <<"dims", {<<"64.0","60.0","30.0">>, <<"90.0","50.0","33.0">>, <<"41.0","173.0","20.0">>, <<"310.0","20.0","45.0">>}>>,
  <<"L", {"5.3", "11.7"}>>,
  <<"G", {"0.21", "0.63"}>>,
  <<"blend", {0, 1, 4}>>,
  <<"L2d", {"50.0", "130.0"}>>,
  <<"f1", {"1.5", "4.0", "6.25"}>>,
  <<"f2", {"0.75", "2.0", "5.5"}>>,
  <<"e1", {3, 4, 5}>>,
  <<"e2", {2, 3, 4}>>,
  <<"psi", {"0.4", "0.75", "1.2"}>>,
  <<"seed", {0, 5, 4242}>>,
  <<"calls", {<<1, 1, 1>>, <<2, 1>>, <<3>>, <<1, 0, 2>>, <<1, 2>>, <<2, 0, 5, 1>>}>> >>
MyDerive(c) == c
=============================================================================
