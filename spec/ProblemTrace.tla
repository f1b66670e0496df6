---------------------------- MODULE ProblemTrace -----------------------------
(* Recorded uses of calibration problems against Problem (C13, C14).  Each   *)
(* event carries what was observed afterwards of every object: obs.p, obs.h  *)
(* and obs.f are sequences of [id, ...] records.  fps holds, for every       *)
(* (architecture, vector) met so far, the behaviour of the model.            *)
EXTENDS Kernel, TraceKit

MySt0 == [p |-> <<>>, h |-> <<>>, f |-> <<>>, g |-> <<>>, fps |-> <<>>]

Ids(s) == {s[n].id : n \in 1..Len(s)}
At(s, id) == s[CHOOSE n \in 1..Len(s) : s[n].id = id]
Put(s, r) == IF r.id \in Ids(s) THEN [n \in 1..Len(s) |-> IF s[n].id = r.id THEN r ELSE s[n]] ELSE Append(s, r)
Obj(id, arch, cfg, val) == [id |-> id, arch |-> arch, cfg |-> cfg, val |-> val]

Seen(e, id) == id \in Ids(e.obs.p)
OP(e, id) == LET o == At(e.obs.p, id) IN Obj(o.id, o.arch, o.cfg, o.val)
OF(e, id) == LET o == At(e.obs.f, id) IN Obj(o.id, o.arch, o.cfg, o.val)

KeyOf(o) == <<o.arch, o.val>>
Fits(s, e) == At(s.h, e.h).len = e.len
\* the state the specification prescribes after the event; a fresh value is whatever was observed
Want(s, e) ==
  CASE e.a = "new" -> [s EXCEPT !.p = Put(@, [OP(e, e.p) EXCEPT !.arch = e.arch])]
    [] e.a = "read" -> [s EXCEPT !.h = Put(@, [id |-> e.h, len |-> e.len, val |-> At(s.p, e.p).val])]
    [] e.a = "write" -> IF Fits(s, e) THEN [s EXCEPT !.p = Put(@, [At(s.p, e.p) EXCEPT !.val = At(s.h, e.h).val])] ELSE s
    [] e.a = "mutate" -> [s EXCEPT !.h = Put(@, At(e.obs.h, e.h))]
    [] e.a = "calib" -> [s EXCEPT !.p = Put(@, [At(s.p, e.p) EXCEPT !.val = OP(e, e.p).val])]
    [] e.a = "edit" -> [s EXCEPT !.p = Put(@, [At(s.p, e.p) EXCEPT !.cfg = OP(e, e.p).cfg])]
    [] e.a = "save" -> [s EXCEPT !.f = Put(@, [At(s.p, e.p) EXCEPT !.id = e.f])]
    [] e.a = "load" -> [s EXCEPT !.p = Put(@, [At(s.f, e.f) EXCEPT !.id = e.p])]
    [] e.a = "gen" -> [s EXCEPT !.g = Put(@, [id |-> e.g, key |-> KeyOf(At(s.f, e.f))])]
    [] OTHER -> s

Expected(s, e) ==       \* outcome
  CASE e.a \in {"badlen", "badsave"} -> "ValueError"
    [] e.a = "write" -> IF Fits(s, e) THEN "ok" ELSE "ValueError"
    [] OTHER -> "ok"

FpKeys(s) == {s.fps[n].key : n \in 1..Len(s.fps)}
At2(s, k) == s.fps[CHOOSE n \in 1..Len(s.fps) : s.fps[n].key = k]
FpAt(s, k) == At2(s, k).fp
RECURSIVE AddAll(_, _)
AddAll(s, os) == IF os = <<>> THEN s
                 ELSE LET o == Head(os) IN
                      AddAll(IF KeyOf(o) \in FpKeys(s) THEN s ELSE [s EXCEPT !.fps = Append(@, [key |-> KeyOf(o), fp |-> o.fp, head |-> o.head])], Tail(os))

\* Once something failed, the state follows what was observed, so that one failure is reported once.
Follow(s, e) == [s EXCEPT !.p = [n \in 1..Len(e.obs.p) |-> Obj(e.obs.p[n].id, e.obs.p[n].arch, e.obs.p[n].cfg, e.obs.p[n].val)],
                          !.h = e.obs.h,
                          !.f = [n \in 1..Len(e.obs.f) |-> Obj(e.obs.f[n].id, e.obs.f[n].arch, e.obs.f[n].cfg, e.obs.f[n].val)]]
MyStep(s, e) == AddAll([Follow(s, e) EXCEPT !.g = IF e.out = "ok" THEN Want(s, e).g ELSE @], e.obs.p)

SameObjs(want, obs) == Ids(want) = Ids(obs) /\ \A n \in 1..Len(want) : LET o == At(obs, want[n].id) IN \A x \in DOMAIN want[n] : o[x] = want[n][x]

\* The kernel of a generator: the tensor of the saved scales, with the lifetime of the saved model.
\* o holds ustar, zref, points k and kernels g; the lifetimes at k*zref are the last entries of fp.
GenFits(m, o) ==
  LET L == RExp(m.head[1])
      E == RMul(RMul(RMul(RMul(4, RPi), RPow(L, RDiv("-5", "3"))), RExp(m.head[3])), RMul(Sq(o.us), RPow(o.zref, RDiv("-2", "3"))))
      np == Len(o.k)
  IN \A n \in 1..np :
       LET t == Tensor(E, RMul(L, o.zref), o.k[n], m.fp[Len(m.fp) - np + n])
           tr == RAdd(RAdd(t[1], t[2]), t[3])
           Phi(i, j) == RAdd(RAdd(RMul(o.g[n][i][1], o.g[n][j][1]), RMul(o.g[n][i][2], o.g[n][j][2])), RMul(o.g[n][i][3], o.g[n][j][3]))
       IN \A q \in 1..6 : RClose(Phi(Pairs[q][1], Pairs[q][2]), t[q], "0", RMul(tr, "3e-3"))

MyFail(s, e) ==
  IF e.out # Expected(s, e) THEN {"Outcome"}
  ELSE LET w == Want(s, e)
           a == AddAll(s, e.obs.p) IN
       If(SameObjs(w.p, e.obs.p), "Problems")
       \cup If(SameObjs(w.h, e.obs.h), "CallersVectors")
       \cup If(SameObjs(w.f, e.obs.f), "Files")
       \cup If(\A n \in 1..Len(e.obs.p) : LET o == e.obs.p[n] IN RCloseSeq(o.fp, FpAt(a, KeyOf(o)), e.tol, "1e-13"), "VectorDeterminesModel")
       \cup If(\A n \in 1..Len(e.obs.p) : \A x \in 1..Len(e.obs.p[n].fp) : RFinite(e.obs.p[n].fp[x]), "Finite")
       \cup If(e.a = "new" => LET o == At(e.obs.p, e.p) IN
                 /\ o.len = e.len
                 /\ RCloseSeq(o.head, [n \in 1..3 |-> RLn(e.phys[n])], "0", e.eps), "InitialScales")
       \cup If(\A n \in 1..Len(e.obs.f) : e.obs.f[n].layout, "FileLayout")
       \cup If(Ids(w.g) = Ids(e.obs.g), "Generators")
       \cup If(\A n \in 1..Len(e.obs.g) : LET o == e.obs.g[n] k == At(w.g, o.id).key IN k \in FpKeys(a) => GenFits(At2(a, k), o), "GeneratorIsSavedModel")
==============================================================================
