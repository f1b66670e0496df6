----------------------------- MODULE LifetimeSim -----------------------------
EXTENDS Pick
MyFields == <<
  <<"et", {"CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET", "TAUNET ", "TAUNET  "}>>,
  <<"dtype", {"f64", "f64", "f32"}>>,
  <<"L", {"0.004", "0.59", "1.0", "35.0", "900.0"}>>,
  <<"G", {"0.02", "1.0", "3.9"}>>,
  <<"net", {<<2, 3>>, <<1, 1>>, <<3, 4>>, <<2, 10>>}>>,
  <<"nu", {"fixed", "learned"}>>,
  <<"w", {"init", "zero", "some", "large"}>>,
  <<"shape", {"list", "grid", "single", "bare", "deep"}>>,
  <<"set", {"setter", "phys"}>>,
  <<"reach", {"common", "common ", "long", "short"}>> >>
MyDerive(c) == c
==============================================================================
