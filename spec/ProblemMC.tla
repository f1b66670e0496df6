------------------------------ MODULE ProblemMC ------------------------------
EXTENDS Problem
MCLen(a) == IF a = 1 THEN 5 ELSE 3
MCEt(a) == IF a = 3 THEN 2 ELSE a
==============================================================================
