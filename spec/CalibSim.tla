------------------------------- MODULE CalibSim ------------------------------
EXTENDS Pick
MyFields == <<
  <<"arch", 1..7>>,
  <<"nc", {3, 4, 6}>>,
  <<"epochs", {1, 2, 3, 5, 8}>>,
  <<"opt", {"LBFGS", "Adam"}>>,
  <<"tol", {"zero", "huge", "mid", "mid ", "early"}>>,
  <<"lr", {"0.1", "0.02", "1.0"}>>,
  <<"wolfe", {1, 4}>>,
  <<"pen", {"none", "all"}>>,
  <<"dtype", {"f32", "f64"}>>,
  <<"order", {"up", "up ", "down", "mixed"}>>,
  <<"spoil", {"no", "no ", "no  ", "no   ", "zero", "nan", "inf"}>> >>
MyDerive(c) == c
==============================================================================
