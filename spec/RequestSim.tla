----------------------------- MODULE RequestSim ------------------------------
EXTENDS Pick, Request
MyFields == <<
  <<"type", {"LOG", "PL", "log", "EXP", "LOG "}>>,
  <<"zref", {"-3.0", "0", "-0.0", "0.000001", "20.0", "119.0", "20"}>>,
  <<"uref", {"-1.0", "0", "-1e-12", "1e-9", "8.0", "30"}>>,
  <<"z0", {"-0.1", "0", "1e-8", "0.05", "70.0", "-1e-300"}>>,
  <<"exp", {"none", "0", "0.2", "1", "0.0"}>>,
  <<"n", {1, 2}>>,
  <<"ints", BOOLEAN>>,
  <<"before", {0, 1}>> >>
MyDerive(c) == c @@ [ok |-> Admissible(c)]
==============================================================================
