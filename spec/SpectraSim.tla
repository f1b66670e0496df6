------------------------------ MODULE SpectraSim -----------------------------
EXTENDS Pick
MyFields == <<
  <<"et", {"CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET", "TAUNET "}>>,
  <<"dtype", {"f64", "f64 ", "f32"}>>,
  <<"L", {"0.3", "0.59", "2.0", "35.0"}>>,
  <<"G", {"0.1", "1.0", "3.9"}>>,
  <<"S", {"0.01", "1.0", "40.0"}>>,
  <<"learn", {"no", "no ", "vk", "other"}>>,
  <<"lo", {"-2.0", "-1.0", "-1.5"}>>,
  <<"hi", {"0.5", "1.0", "2.0"}>>,
  <<"n", {2, 3, 5}>>,
  <<"net", {<<2, 3>>, <<1, 1>>}>>,
  <<"set", {"setter", "phys"}>>,
  <<"tiny", BOOLEAN>> >>
MyDerive(c) == c
==============================================================================
