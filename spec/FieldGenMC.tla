----------------------------- MODULE FieldGenMC -----------------------------
EXTENDS FieldGen
MCNx   == [c \in Configs |-> IF c = 1 THEN 2 ELSE 3]
MCExt  == [c \in Configs |-> IF c = 1 THEN 3 ELSE 1]
MCTwoD == [c \in Configs |-> c = 2]
=============================================================================
