------------------------------ MODULE SynthSim -------------------------------
EXTENDS Pick
MyFields == << <<"fn", {"vk", "kaimal"}>>, <<"layout", {"log", "unsorted", "single", "repeated", "strided", "grad"}>>, <<"dtype", {"f32", "f64", "i64"}>>, <<"n", {1, 2, 7}>>,
               <<"args", {"positional", "keyword", "default", "integer", "numpy"}>>, <<"range", {"mid", "tiny", "huge"}>>,
               <<"a", {"0.004", "0.59", "7.5", "120.0"}>>, <<"b", {"0.05", "0.41", "3.2", "22.0"}>> >>
MyDerive(x) == x
==============================================================================
