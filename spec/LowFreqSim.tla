----------------------------- MODULE LowFreqSim -----------------------------
EXTENDS Pick, LowFreq
MyFields == <<
  <<"L2d", {"0.9", "12.0", "130.0", "3000.0", "15000.0", "40000.0"}>>,
  <<"f1", {"0.3", "1.0", "4.0", "5.0", "7.25", "16.0"}>>,
  <<"f2", {"0.125", "1.0", "2.5", "5.0", "9.0"}>>,
  <<"e1", {1, 2, 3, 4, 5, 10, 13}>>,
  <<"e2", {1, 2, 3, 4, 9}>>,
  <<"psi", {"0.01", "1.55", "0.2", "0.75", "0.7853981633974483", "1.3"}>>,
  <<"zi", {"0.05", "1.0", "20.0", "500.0"}>>,
  <<"sigma2", {"0.6", "2.0", "9.0"}>>,
  <<"num", {"float", "int"}>> >>
MyDerive(c) == c @@ [n1 |-> RCeil(RDiv(Target1(c), Fine(c))), n2 |-> RCeil(RDiv(Target2(c), Fine(c)))]
=============================================================================
