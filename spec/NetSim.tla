------------------------------- MODULE NetSim --------------------------------
EXTENDS Pick, Construct
MyFields == << <<"n", {<<"int", 1>>, <<"int", 2>>, <<"int", 3>>, <<"int", 2>>, <<"int", 0>>, <<"int", -1>>, <<"float", 2>>, <<"str", 2>>, <<"none", 0>>}>>,
               <<"s", {<<"int", 1>>, <<"int", 4>>, <<"int", 0>>, <<"int", -3>>, <<"list", <<5>>>>, <<"list", <<2, 7>>>>, <<"list", <<7, 2>>>>, <<"list", <<3, 1, 4>>>>, <<"list", <<2, 0>>>>, <<"list", <<0>>>>, <<"list", <<-1, 3>>>>, <<"list", <<4, 4, -2>>>>, <<"list", <<3, 3>>>>}>>,
               <<"nu", BOOLEAN>>, <<"how", {"positional", "keyword"}>>,
               <<"a", {<<"none", 0>>, <<"module", 0>>, <<"list", 1>>, <<"list", 2>>, <<"list", 3>>, <<"bad", 2>>, <<"bad", 1>>, <<"tuple", 2>>, <<"class", 0>>, <<"str", 0>>}>> >>
MyDerive(x) == x @@ [ok |-> NetOK(x.n, x.s, x.a)]
==============================================================================
