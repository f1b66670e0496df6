----------------------------- MODULE ScheduleSim -----------------------------
EXTENDS Pick
MyFields == <<
  <<"kind", {"phases", "adaptive"}>>,
  <<"E", {1, 2, 3, 4, 7, 10, 13, 20, 33}>>,
  <<"opt", {"Adam", "LBFGS", "SGD2"}>>,
  <<"lr", {"1.0", "0.03", "1e-4"}>>,
  <<"before", {0, 3, 9, 10, 14}>>,
  <<"per", {0, 1, 3}>>,
  <<"ops", {"0", "1e-3", "0.5", "5.0", "noise"}>>,
  <<"coh", {"0", "1e-3", "0.5", "4.0", "noise"}>> >>
MyDerive(c) == c
==============================================================================
