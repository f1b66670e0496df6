---------------------------- MODULE FieldGenOps ----------------------------
(* The generators of FieldGen as values: a new generator, and a generator   *)
(* after n more blocks.  Used by the state machine (FieldGen) and by the    *)
(* validation of recorded calls (FieldGenTrace).                            *)
EXTENDS Integers, Sequences

CONSTANTS NoSeed,      \* stands for "no seed given"
          Nx,          \* [Configs -> Nat]  planes per block
          Ext,         \* [Configs -> Nat]  extra planes of a window (buffers and blend)
          TwoD         \* [Configs -> BOOLEAN]  low-frequency field superposed

Absent == [live |-> FALSE]
NoLF   == <<"none">>

Planes(a, n) == [i \in 1..n |-> a + i - 1]

(***** the stream a new generator draws from ******************************)
Stream(s, f) == IF s = NoSeed THEN <<"fresh", f>> ELSE <<"seed", s>>
(* the low-frequency field: derived from the seed, else drawn from the     *)
(* process-wide stream                                                     *)
LFOf(c, s, g) == IF ~TwoD[c] THEN NoLF
                 ELSE IF s = NoSeed THEN <<"glob", g.id, g.pos>> ELSE <<"lfseed", s>>

NewGen(c, s, f, g) ==
  [live |-> TRUE, cfg |-> c, seed |-> s, src |-> Stream(s, f), lf |-> LFOf(c, s, g),
   win |-> <<>>, drawn |-> 0, blocks |-> <<>>]

(***** one block: draw, roll, correlate, append ***************************)
NextWin(r) ==
  LET n == Nx[r.cfg] w == Nx[r.cfg] + Ext[r.cfg] IN
  IF r.win = <<>> THEN Planes(1, w)
  ELSE [i \in 1..w |-> IF i > w - n THEN r.drawn + i - (w - n)        \* fresh planes
                       ELSE r.win[((i - 1 + n) % w) + 1]]             \* rolled
Drawn(r) == IF r.win = <<>> THEN Nx[r.cfg] + Ext[r.cfg] ELSE r.drawn + Nx[r.cfg]

OneBlock(r, p) ==
  LET w == NextWin(r) IN
  [r EXCEPT !.win = w, !.drawn = Drawn(r),
            !.blocks = Append(@, [src |-> r.src, win |-> w, prof |-> p,
                                  lf |-> r.lf, x |-> Len(r.blocks)])]

RECURSIVE GenBlocks(_, _, _)
GenBlocks(r, n, p) == IF n = 0 THEN r ELSE GenBlocks(OneBlock(r, p), n - 1, p)
=============================================================================
