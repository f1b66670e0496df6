------------------------------ MODULE Problem -------------------------------
(***************************************************************************)
(* Calibration problems, parameter vectors held by the caller, and saved   *)
(* models, and wind-field generators built from them.  A value stands for the contents of a parameter vector, a       *)
(* configuration for the four parameter objects.  Every object is owned:   *)
(* a step changes the object it names and nothing else, and what a model   *)
(* computes is a function of its architecture and its vector.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Probs, Hands, Dirs, Gens, Archs, LenOf(_), EtOf(_)
VARIABLES prob, hand, file, gen, fresh

vars == <<prob, hand, file, gen, fresh>>
None == [live |-> FALSE]
Live(x) == x.live
Prob(a, c, v) == [live |-> TRUE, arch |-> a, cfg |-> c, val |-> v]
Hand(n, v) == [live |-> TRUE, len |-> n, val |-> v]
Files == Dirs \X {EtOf(a) : a \in Archs}

Init == /\ prob = [p \in Probs |-> None]
        /\ hand = [h \in Hands |-> None]
        /\ file = [f \in Files |-> None]
        /\ gen = [g \in Gens |-> None]
        /\ fresh = 1

New(p, a) == /\ prob' = [prob EXCEPT ![p] = Prob(a, fresh, fresh)]
             /\ fresh' = fresh + 1 /\ UNCHANGED <<hand, file, gen>>
Read(p, h) == /\ Live(prob[p])
              /\ hand' = [hand EXCEPT ![h] = Hand(LenOf(prob[p].arch), prob[p].val)]
              /\ UNCHANGED <<prob, file, fresh, gen>>
\* accepted if the length fits, refused without effect otherwise
Write(p, h) == /\ Live(prob[p]) /\ Live(hand[h])
               /\ prob' = IF hand[h].len = LenOf(prob[p].arch) THEN [prob EXCEPT ![p].val = hand[h].val] ELSE prob
               /\ UNCHANGED <<hand, file, fresh, gen>>
Mutate(h) == /\ Live(hand[h])
             /\ hand' = [hand EXCEPT ![h].val = fresh]
             /\ fresh' = fresh + 1 /\ UNCHANGED <<prob, file, gen>>
Calibrate(p) == /\ Live(prob[p])
                /\ prob' = [prob EXCEPT ![p].val = fresh]
                /\ fresh' = fresh + 1 /\ UNCHANGED <<hand, file, gen>>
\* the caller edits the parameter objects it built a problem from
Edit(p) == /\ Live(prob[p])
           /\ prob' = [prob EXCEPT ![p].cfg = fresh]
           /\ fresh' = fresh + 1 /\ UNCHANGED <<hand, file, gen>>
Save(p, d) == /\ Live(prob[p])
              /\ file' = [file EXCEPT ![<<d, EtOf(prob[p].arch)>>] = prob[p]]
              /\ UNCHANGED <<prob, hand, fresh, gen>>
SaveRefused(p) == Live(prob[p]) /\ UNCHANGED vars
Load(p, f) == /\ Live(file[f])
              /\ prob' = [prob EXCEPT ![p] = file[f]]
              /\ UNCHANGED <<hand, file, fresh, gen>>
\* a wind-field generator built from a file keeps what the file held at that moment
Build(g, f) == /\ Live(file[f])
               /\ gen' = [gen EXCEPT ![g] = file[f]]
               /\ UNCHANGED <<prob, hand, file, fresh>>
Look(p) == Live(prob[p]) /\ UNCHANGED vars

Next == \/ \E p \in Probs : \/ \E a \in Archs : New(p, a)
                            \/ \E h \in Hands : Read(p, h) \/ Write(p, h)
                            \/ \E d \in Dirs : Save(p, d)
                            \/ \E f \in Files : Load(p, f)
                            \/ Calibrate(p) \/ Edit(p) \/ SaveRefused(p) \/ Look(p)
        \/ \E h \in Hands : Mutate(h)
        \/ \E g \in Gens, f \in Files : Build(g, f)
Spec == Init /\ [][Next]_vars

Bound == fresh <= 4

\* what a model computes
Behaviour(x) == <<x.arch, x.val>>

TypeOK == /\ \A p \in Probs : Live(prob[p]) => prob[p].arch \in Archs
          /\ \A f \in Files : Live(file[f]) => EtOf(file[f].arch) = f[2]
\* at most one object changes per step
Changed == {<<"p", p>> : p \in {q \in Probs : prob'[q] # prob[q]}} \cup {<<"h", h>> : h \in {q \in Hands : hand'[q] # hand[q]}}
           \cup {<<"f", f>> : f \in {q \in Files : file'[q] # file[q]}}
           \cup {<<"g", g>> : g \in {q \in Gens : gen'[q] # gen[q]}}
OneOwner == [][Cardinality(Changed) <= 1]_vars
\* loading gives what was saved last, even if the original changed since
BuildIsSaved == [][\A g \in Gens, f \in Files : (Build(g, f) /\ gen'[g] # gen[g]) => Behaviour(gen'[g]) = Behaviour(file[f])]_vars
LoadIsSaved == [][\A p \in Probs, f \in Files : (Load(p, f) /\ prob'[p] # prob[p]) => Behaviour(prob'[p]) = Behaviour(file[f])]_vars
\* equal vectors, equal models; and a vector read and written back is the vector
Determined == \A p, q \in Probs : Live(prob[p]) /\ Live(prob[q]) /\ prob[p].arch = prob[q].arch /\ prob[p].val = prob[q].val => Behaviour(prob[p]) = Behaviour(prob[q])
=============================================================================
