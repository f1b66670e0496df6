----------------------------- MODULE ExportTrace -----------------------------
(* Recorded histories: fields in memory and on disk after every event.        *)
EXTENDS Integers, Sequences, Real64, TraceKit
Offset(n1, n2, i, j, k, c) == 3 * (i + n1 * (j + n2 * k)) + c
\* per generator: blocks and identity of the accumulated field; per file: identity of the field it must hold
MySt0 == [g |-> [x \in {} |-> 0], f |-> [x \in {} |-> 0]]
Blocks(s, e) == IF e.g \in DOMAIN s.g THEN s.g[e.g].blocks ELSE 0
Upd(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
MyStep(s, e) ==
  IF e.out # "ok" THEN s
  ELSE IF e.a = "gen" THEN [s EXCEPT !.g = Upd(@, e.g, [blocks |-> Blocks(s, e) + e.n, field |-> e.field])]
  ELSE [s EXCEPT !.f = Upd(@, e.p, e.field)]
FileOK(s, e, f) == f.p = e.p \/ (f.p \in DOMAIN s.f /\ f.field = s.f[f.p])
MyFail(s, e) ==
  IF e.out # "ok" THEN {"Works"}
  ELSE IF e.a = "gen"
  THEN If(e.shape = <<(Blocks(s, e) + e.n) * e.nb[1], e.nb[2], e.nb[3], 3>>, "Accumulates")
       \cup If(e.prefix, "EarlierBlocksKept")
       \cup If(\A n \in 1..Len(e.files) : e.files[n].field = s.f[e.files[n].p], "FilesKept")
       \cup If(e.twin, "ExportDoesNotAffectGeneration")
  ELSE LET n1 == Blocks(s, e) * e.nb[1]  n2 == e.nb[2]  n3 == e.nb[3]  IN
       If(e.field = s.g[e.g].field, "FieldKept")
       \cup (IF ~e.readable THEN {"Readable"}
             ELSE If(e.extent = <<0, n1, 0, n2, 0, n3>>, "Extents")
                  \cup If(\A a \in 1..3 : RClose(e.spacing[a], RDiv(e.dims[a], e.nb[a]), "1e-6", "0"), "Spacing")
                  \cup (IF e.count # 3 * n1 * n2 * n3 THEN {"AllPoints"}
                        ELSE If(\A q \in 1..Len(e.sample) : LET x == e.sample[q] IN RClose(e.flat[q], x.val, "1e-6", "1e-30") /\ e.offs[q] = Offset(n1, n2, x.i, x.j, x.k, x.c), "Values")
                             \cup If(e.whole, "AllValues"))
                  \cup If(\A n \in 1..Len(e.files) : FileOK(s, e, e.files[n]), "FilesKept"))
==============================================================================
