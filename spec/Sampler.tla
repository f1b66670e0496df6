------------------------------- MODULE Sampler ------------------------------
(* A sampler correlates noise arrays through work buffers it reuses.        *)
(* Arrays are written abstractly: an input is a formal combination of base  *)
(* arrays, a result is the image of one, held by the caller.  The machine   *)
(* loads the input into the buffer, transforms it there and hands out a     *)
(* copy; results, once handed out, stay what they were.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Inputs, Depth, Samplers
VARIABLES buf, own, outs, h

Image(i) == <<"K", i>>
Init == buf = [s \in Samplers |-> <<"raw">>] /\ own = 0 /\ outs = <<>> /\ h = <<>>
\* the caller hands over a fresh array, or an array of its own that it fills anew each time (w)
Sample(s, i, w) == /\ Len(h) < Depth
                   /\ own' = IF w THEN i ELSE own
                   /\ buf' = [buf EXCEPT ![s] = Image(IF w THEN own' ELSE i)]
                   /\ outs' = Append(outs, buf'[s])
                   /\ h' = Append(h, [s |-> s, i |-> i, w |-> w])
Next == \E s \in Samplers, i \in Inputs, w \in BOOLEAN : Sample(s, i, w)
Spec == Init /\ [][Next]_<<buf, own, outs, h>>

\* the result depends on the input only, not on the history
HistoryFree == \A n \in 1..Len(h) : outs[n] = Image(h[n].i)
ResultsStay == [][\A n \in 1..Len(outs) : outs'[n] = outs[n]]_outs
Emit == (Len(h) = Depth) => PrintT(ToJson(h))
=============================================================================
