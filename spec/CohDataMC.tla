----------------------------- MODULE CohDataMC -------------------------------
(* Loading as a process: the rows of a file are read one after the other and  *)
(* placed into the store; whatever the order, the store ends as Loaded says,  *)
(* and a second load leaves nothing of the first.                             *)
EXTENDS CohData, TLC
CONSTANTS SI, FI, MaxRows
VARIABLES file, left, store, loads
cvars == <<file, left, store, loads>>
Row(i, j) == [si |-> i, fi |-> j, sep |-> 10 * i, freq |-> 7 * j, u |-> <<"u", i, j>>, v |-> <<"v", i, j>>, w |-> <<"w", i, j>>]
Files == {S \in SUBSET (SI \X FI) : S # {} /\ Cardinality(S) <= MaxRows}
Empty == [x \in {} |-> 0]
Init == file = <<>> /\ left = {} /\ store = Empty /\ loads = 0
Open(S) == left = {} /\ loads < 2 /\ left' = S /\ file' = <<>> /\ store' = Empty /\ loads' = loads + 1
Read(x) == /\ x \in left /\ left' = left \ {x} /\ file' = Append(file, Row(x[1], x[2]))
           /\ store' = store @@ (x :> Row(x[1], x[2])) /\ UNCHANGED loads
Next == (\E S \in Files : Open(S)) \/ \E x \in left : Read(x)
Spec == Init /\ [][Next]_cvars
Done == left = {} /\ file # <<>>
Placed == Done => \A n \in 1..Len(Seps(file)), m \in 1..Len(Freqs(file)) :
            LET x == <<Nth(SIdx(file), n), Nth(FIdx(file), m)>> IN
            Table(file, "v")[n][m] = IF x \in DOMAIN store THEN store[x].v ELSE "nan"
OrderFree == Done => LET g == [n \in 1..Len(file) |-> file[Len(file) + 1 - n]] IN Loaded(g) = Loaded(file)
SelectedInRange == Done => LET s == Selected(file) IN s[1] = 1 /\ s[4] = Len(Seps(file)) /\ \A n \in 1..3 : s[n] <= s[n + 1]
==============================================================================
