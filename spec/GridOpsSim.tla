----------------------------- MODULE GridOpsSim ------------------------------
EXTENDS Pick
MyFields == << <<"shape", {<<3, 3, 3>>, <<2, 2, 2>>, <<4, 3, 5>>, <<2, 5, 3>>, <<5, 2, 4>>, <<3, 4, 2>>, <<6, 3, 3>>}>>, <<"kind", {"affine", "random", "quadratic", "swirl", "huge", "zero", "const", "tiny"}>>,
               <<"order", {"C", "F", "view", "f32"}>>, <<"sp", {"tuple", "list", "array", "ints"}>>, <<"h", {<<"1.0", "1.0", "1.0">>, <<"0.5", "2.0", "10.0">>, <<"3.0", "0.01", "0.7">>}>> >>
MyDerive(x) == x
==============================================================================
