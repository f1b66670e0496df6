---------------------------- MODULE ConstructMC ------------------------------
EXTENDS Construct
CONSTANTS MaxN, MaxH
VARIABLES n, s, nu
Init == n \in 1..MaxN /\ s \in UNION {[1..m -> 1..MaxH] : m \in 1..MaxN} /\ nu \in BOOLEAN
Next == UNCHANGED <<n, s, nu>>
Spec == Init /\ [][Next]_<<n, s, nu>>
OK == NetOK(<<"int", n>>, <<"list", s>>, <<"none", 0>>)
LengthRules == OK <=> Len(s) = n
\* the matrices compose from three inputs to three outputs
Composes == OK => LET w == Weights(<<"int", n>>, <<"list", s>>) IN w[1][2] = 3 /\ w[n + 1][1] = 3 /\ \A i \in 1..n : w[i][1] = w[i + 1][2]
OneSize == (OK /\ \A i \in 1..n : s[i] = s[1]) => NetParams(<<"int", n>>, <<"list", s>>, nu) = 6 * s[1] + (n - 1) * s[1] * s[1] + (IF nu THEN 1 ELSE 0)
==============================================================================
