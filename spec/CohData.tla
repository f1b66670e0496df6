------------------------------ MODULE CohData --------------------------------
(* Coherence data files (C23).  A file is a sequence of rows; a row places    *)
(* one value per component at (separation index, frequency index).            *)
EXTENDS Integers, Sequences, FiniteSets

\* row: [si, fi, sep, freq, u, v, w]
SIdx(f) == {f[n].si : n \in 1..Len(f)}
FIdx(f) == {f[n].fi : n \in 1..Len(f)}
Nth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = n - 1
SepOf(f, i) == f[CHOOSE n \in 1..Len(f) : f[n].si = i].sep
FreqOf(f, j) == f[CHOOSE n \in 1..Len(f) : f[n].fi = j].freq
Seps(f) == [n \in 1..Cardinality(SIdx(f)) |-> SepOf(f, Nth(SIdx(f), n))]
Freqs(f) == [n \in 1..Cardinality(FIdx(f)) |-> FreqOf(f, Nth(FIdx(f), n))]
CellOf(f, i, j, c) == LET R == {n \in 1..Len(f) : f[n].si = i /\ f[n].fi = j} IN
                      IF R = {} THEN "nan" ELSE f[CHOOSE n \in R : TRUE][c]
Table(f, c) == [n \in 1..Cardinality(SIdx(f)) |-> [m \in 1..Cardinality(FIdx(f)) |-> CellOf(f, Nth(SIdx(f), n), Nth(FIdx(f), m), c)]]
\* the four separations used for fitting and plotting, by position
Selected(f) == LET n == Cardinality(SIdx(f)) IN <<1, ((n - 1) \div 3) + 1, ((2 * (n - 1)) \div 3) + 1, n>>
Loaded(f) == [seps |-> Seps(f), freqs |-> Freqs(f), u |-> Table(f, "u"), v |-> Table(f, "v"), w |-> Table(f, "w"), sel |-> Selected(f)]
==============================================================================
