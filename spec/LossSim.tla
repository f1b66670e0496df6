------------------------------- MODULE LossSim -------------------------------
EXTENDS Pick
MyFields == <<
  <<"rows", {1, 3, 4, 6}>>,
  <<"n", {3, 4, 7}>>,
  <<"dtype", {"f64", "f64", "f32"}>>,
  <<"k", {"log", "irregular", "wide"}>>,
  <<"zref", {"1.0", "40.0", "0.2"}>>,
  <<"a1", {"0", "0.3", "25.0"}>>,
  <<"a2", {"0", "0.7", "12.0"}>>,
  <<"b", {"0", "1e-5", "2.0"}>>,
  <<"g", {"0", "0.4", "9.0"}>>,
  <<"shape", {"random", "falling", "convex", "concave", "signed", "fit", "const"}>>,
  <<"theta", {"none", "one", "many", "zero", "big"}>>,
  <<"coh", {"none", "tensor", "numpy", "equal"}>>,
  <<"spoil", {"no", "no", "no ", "ynan", "dnan", "thnan", "cohnan", "dup"}>> >>
MyDerive(c) == c
==============================================================================
