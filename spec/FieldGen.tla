------------------------------ MODULE FieldGen ------------------------------
(***************************************************************************)
(* The wind-field generators of a process, as a state machine.             *)
(*                                                                         *)
(* A generator owns a noise stream.  Its first block correlates a window   *)
(* of the first Nx+Ext planes of the stream; every further block rolls the *)
(* window by Nx planes and refills its end from the stream.  A block of    *)
(* the field is the record                                                 *)
(*    [src |-> stream, win |-> planes correlated, prof |-> mean profile,   *)
(*     lf |-> low-frequency field or NoLF, x |-> position in block lengths]*)
(* Actions are the public calls, one action per call.                      *)
(***************************************************************************)
EXTENDS FieldGenOps, FiniteSets

CONSTANTS Gens,        \* identifiers a process may give its generators
          Seeds,       \* seeds; NoSeed means "none given"
          Profiles,    \* admissible mean-profile arguments
          Configs,     \* identifiers of configurations
          MaxN,        \* blocks per call
          MaxBlocks    \* blocks per generator (bound for model checking)

VARIABLES gen,         \* [Gens -> generator record or Absent]
          glob,        \* [id, pos] of the process-wide random stream
          fresh        \* number of entropy-seeded streams created so far

vars == <<gen, glob, fresh>>

(***** actions ************************************************************)
Init == /\ gen = [g \in Gens |-> Absent]
        /\ glob = [id |-> 0, pos |-> 0]
        /\ fresh = 0

New(g, c, s) ==
  /\ gen' = [gen EXCEPT ![g] = NewGen(c, s, fresh + 1, glob)]
  /\ fresh' = IF s = NoSeed THEN fresh + 1 ELSE fresh
  /\ glob' = IF s = NoSeed /\ TwoD[c] THEN [glob EXCEPT !.pos = @ + 1] ELSE glob

Generate(g, n, p) ==
  /\ gen[g].live
  /\ gen' = [gen EXCEPT ![g] = GenBlocks(@, n, p)]
  /\ UNCHANGED <<glob, fresh>>

Reject(g) == gen[g].live /\ UNCHANGED vars       \* a call refused with ValueError

Inspect(g) == gen[g].live /\ UNCHANGED vars      \* divergence, export, profiles: read-only

GlobDraw == glob' = [glob EXCEPT !.pos = @ + 1] /\ UNCHANGED <<gen, fresh>>
GlobSeed(s) == glob' = [id |-> s, pos |-> 0] /\ UNCHANGED <<gen, fresh>>

Next == \/ \E g \in Gens, c \in Configs, s \in Seeds \cup {NoSeed} : ~gen[g].live /\ New(g, c, s)
        \/ \E g \in Gens, n \in 0..MaxN, p \in Profiles : Generate(g, n, p)
        \/ \E g \in Gens : Reject(g) \/ Inspect(g)
        \/ GlobDraw
        \/ \E s \in {1, 2} : GlobSeed(s)

Spec == Init /\ [][Next]_vars

Bound == /\ \A g \in Gens : gen[g].live => Len(gen[g].blocks) <= MaxBlocks
         /\ glob.pos <= 1

(***** properties *********************************************************)
Live == {g \in Gens : gen[g].live}
Blocks(g) == gen[g].blocks

\* C01: block b depends on b only, never on how the calls were cut
SplitInvariant ==
  \A g \in Live : \A b \in 1..Len(Blocks(g)) :
    /\ Blocks(g)[b].win = Planes((b - 1) * Nx[gen[g].cfg] + 1, Nx[gen[g].cfg] + Ext[gen[g].cfg])
    /\ Blocks(g)[b].src = gen[g].src
    /\ Blocks(g)[b].x = b - 1
    /\ Blocks(g)[b].lf = gen[g].lf

AppendOnly == [][\A g \in Live : gen'[g].live /\ Len(gen'[g].blocks) >= Len(gen[g].blocks)
                   /\ SubSeq(gen'[g].blocks, 1, Len(gen[g].blocks)) = gen[g].blocks]_gen

\* C02: the seed alone fixes the noise and the low-frequency field
SeedFixes ==
  \A g, h \in Live : gen[g].cfg = gen[h].cfg =>
    /\ (gen[g].seed # NoSeed /\ gen[g].seed = gen[h].seed) =>
         /\ gen[g].src = gen[h].src /\ gen[g].lf = gen[h].lf
         /\ \A b \in 1..Len(Blocks(g)) : b <= Len(Blocks(h)) => Blocks(g)[b].win = Blocks(h)[b].win
    /\ (g # h /\ (gen[g].seed = NoSeed \/ gen[g].seed # gen[h].seed)) => gen[g].src # gen[h].src

\* no generation call touches the process-wide stream
GlobUntouched == [][(gen' # gen /\ fresh' = fresh) => glob' = glob]_vars

\* C03: consecutive windows overlap in all but Nx planes
Overlap ==
  \A g \in Live : \A b \in 1..(Len(Blocks(g)) - 1) :
    LET n == Nx[gen[g].cfg] e == Ext[gen[g].cfg]
        u == Blocks(g)[b].win v == Blocks(g)[b + 1].win
    IN SubSeq(u, n + 1, n + e) = SubSeq(v, 1, e)
=============================================================================
