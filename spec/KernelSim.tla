----------------------------- MODULE KernelSim ------------------------------
EXTENDS Pick
MyFields == <<
  <<"model", {"VK", "Mann", "DRD"}>>,
  <<"L", {"0.05", "0.8", "3.1", "40.0", "750.0"}>>,
  <<"G", {"0", "0.3", "1.0", "3.9"}>>,
  <<"E", {"1e-4", "0.7", "55.0"}>>,
  <<"grid", {"axis", "fft", "wide", "tiny", "thin"}>>,
  <<"f1", {"0.01", "1.0", "13.0"}>>,
  <<"f2", {"0.02", "0.7", "9.0"}>>,
  <<"f3", {"0.005", "1.3", "22.0"}>>,
  <<"via", {"class", "generator"}>>,
  <<"ustar", {"0.4", "1.7"}>>,
  <<"zref", {"7.0", "90.0"}>> >>
MyDerive(c) == c
=============================================================================
