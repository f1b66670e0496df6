----------------------------- MODULE PlotPanels ------------------------------
(* What the pictures of a problem contain (C28).                              *)
EXTENDS Integers, Sequences, Lifetime

\* panels of the spectra: name, entry of the tensor, sign it is drawn with
Names == <<"11", "22", "33", "13", "23", "12">>
Entry == <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 3>>, <<2, 3>>, <<1, 2>>>>
Signed(n, x) == IF n = 4 THEN RNeg(x) ELSE x
Normed(x, ustar) == RDiv(x, Sq(ustar))
\* lifetimes are drawn along the axes and the diagonal
Along == <<"k_1", "k_2", "k_3", "k,k,k">>
Direction == <<<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>, <<RDiv("1", RSqrt("3")), RDiv("1", RSqrt("3")), RDiv("1", RSqrt("3"))>>>>
Reference(G, x) == RMul(G, MannTau(x))
Base(b) == IF b = "" THEN "drdmannturb_final_spectra_fit" ELSE b
FilesOf(b, tau, save) == IF save = "no" THEN {} ELSE {Base(b) \o "_spectra.png"} \cup (IF tau THEN {Base(b) \o "_tau.png"} ELSE {})
==============================================================================
