---------------------------- MODULE FieldGenTrace ----------------------------
(***************************************************************************)
(* Validation of recorded calls on real wind-field generators against      *)
(* FieldGen.  The state of the specification is advanced with FieldGen's   *)
(* own operators (NewGen, GenBlocks); the driver has identified every      *)
(* block of the real field with a block of a reference run (seed, index,   *)
(* profile), or as unknown.                                                *)
(***************************************************************************)
EXTENDS FieldGenOps, TraceKit, Request

\* the model's constants are taken from the trace (they only fix window sizes)
TNx   == <<2>>
TExt  == <<3>>
TTwoD == <<FALSE>>

MySt0 == [g |-> <<>>, fresh |-> 0]      \* g: sequence of [r |-> generator record, m |-> meta]

G(s, e) == s.g[e.g]
Meta(e) == [nx |-> e.nx, twod |-> e.twod, drd |-> e.drd]

Upd(s, e, r) == [s EXCEPT !.g[e.g].r = r]

MyStep(s, e) ==
  CASE e.a = "new" -> [g |-> Append(s.g, [r |-> NewGen(1, e.s, s.fresh + 1, [id |-> 0, pos |-> 0]), m |-> Meta(e)]),
                       fresh |-> IF e.s = NoSeed THEN s.fresh + 1 ELSE s.fresh]
    [] e.a = "gen" -> IF e.out = "ok" THEN Upd(s, e, GenBlocks(G(s, e).r, e.n, e.p)) ELSE s
    [] OTHER -> s

\* index of a block from its window of noise planes
IndexOf(b) == (b.win[1] - 1) \div TNx[1]

\* an expected block against the identification of a real one
\* label: [k |-> "ref", s |-> seed, b |-> index, p |-> profile] or [k |-> "own", ...] or [k |-> "unknown"]
Same(b, x) ==
  /\ x.k = "ref"
  /\ IF b.src[1] = "seed" THEN x.s = b.src[2] ELSE TRUE
  /\ x.b = IndexOf(b)
  /\ x.p = b.prof

\* the blocks the real field shows after a call, against those of the specification
FieldFails(r, e) ==
  If(e.rows = e.nx * Len(r.blocks), "PlanesPerBlock")
  \cup If(e.shapeok, "Shape")
  \cup If(e.expsame, "ExposedField")
  \cup If(e.prefix, "AppendOnly")
  \cup If(e.older, "EarlierResultsIntact")
  \cup (IF r.seed = NoSeed
        THEN If(Len(e.blocks) = Len(r.blocks) /\ \A i \in 1..Len(e.blocks) : e.blocks[i].k = "unknown", "UnseededIsNew")
        ELSE If(Len(e.blocks) = Len(r.blocks)
                /\ \A i \in 1..Len(r.blocks) : Same(r.blocks[i], e.blocks[i]), "BlocksAsSpecified"))

MyFail(s, e) ==
  CASE e.a = "new" -> If(e.out = "ok", "Constructible")
                      \cup If(e.npsame \/ (e.s = NoSeed /\ e.twod), "GlobalNumpyUntouched")
                      \cup If(e.tsame \/ e.drd, "GlobalTorchUntouched")
    [] e.a = "gen" -> LET r == GenBlocks(G(s, e).r, e.n, e.p) IN
                      If(e.out = "ok", "AdmissibleCallAccepted")
                      \cup (IF e.out = "ok" THEN FieldFails(r, e) ELSE {})
                      \cup If(e.npsame, "GlobalNumpyUntouched") \cup If(e.tsame, "GlobalTorchUntouched")
    [] e.a = "rej" -> If(e.out = "ValueError", "BadCallRefused")
                      \cup If(e.expsame /\ e.prefix /\ e.older, "RefusedCallLeavesNoTrace")
                      \cup If(e.npsame, "GlobalNumpyUntouched")
    [] e.a = "insp" -> If(e.expsame /\ e.prefix /\ e.older, "InspectionReadsOnly")
    [] e.a = "request" -> If((e.out = "ok") = Admissible(e.q), IF Admissible(e.q) THEN "AdmissibleCallAccepted" ELSE "BadCallRefused")
                      \cup If(e.out \in {"ok", "ValueError"}, "RefusedWithValueError")
                      \cup (IF e.out = "ok" THEN If(e.rows = e.nx * (e.q.before + e.q.n), "PlanesPerBlock") ELSE If(e.same, "RefusedCallLeavesNoTrace"))
                      \cup If(e.later, "LaterBlocksAsIfNever")
    [] e.a = "distinct" -> If(e.same = FALSE, "DifferentSeedsDiffer")
    [] e.a = "equal" -> If(e.same = TRUE, "SameSeedSameField")
    [] OTHER -> {}
=============================================================================
